#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand after edits)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "experimental/bits/"
SIMD, BUI, X86, XC, FIX, SCA, MATH, CONV, DET, NT = (B + f for f in (
    "simd.h", "simd_builtin.h", "simd_x86.h", "simd_x86_conversions.h", "simd_fixed_size.h", "simd_scalar.h",
    "simd_math.h", "simd_converter.h", "simd_detail.h", "numeric_traits.h"))
TESTS = "The 16 stable tests compare disassembly of a few functions and min/max/reduce of one native float vector; the suites under tests/ do not run here and sample a handful of values. "
INP = ["inputs", "configurations"]


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe, "hook_needed": None}}


CFG = "element type (8- to 64-bit integers, float, double, long double) x ABI (scalar, compatible, native, every deduced partial width, fixed_size<N>) x x86-64 instruction-set level (SSE2 ... AVX-512)"

PROPS = [
P("C01", "Arithmetic operators act lane by lane with exact scalar semantics",
  "For every simd type, +, -, *, /, %, unary + and -, ++, -- and the compound assignments produce in lane i exactly the value the operation on the operands' lanes i has for the element type: modulo 2^n for unsigned and 8/16-bit integers, quotient truncated towards zero and matching remainder, and the correctly rounded IEEE-754 result (including signed zeros, infinities, NaN and subnormals) for floating point. The result of lane i depends on no other lane, on no padding, and on neither the ABI nor the instruction-set level the vector is compiled for. Postfix forms return the old value.",
  INP, "all operand lane values in the operators' domain (no signed int/long overflow, no integer division by zero) for every " + CFG,
  TESTS + "No test executes division, remainder, increment or any integer arithmetic.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_plus/_S_minus/_S_multiplies/_S_divides/_S_modulus/_S_unary_minus/_S_increment", BUI), ("AVX/SSE division via float, partial-vector divisor padding", X86), ("tuple-wise application over chunks", FIX)],
  ["operator+,-,*,/,%", "operator++/--", "compound assignments"]),
P("C02", "Bitwise operators and shifts act lane by lane on the exact bits",
  "For every integral simd type, &, |, ^, ~, << and >> (by a vector of per-lane counts and by a single int count) and their compound assignments give in lane i exactly the bits the scalar operation gives, with >> arithmetic for signed and logical for unsigned elements. Shift counts from 0 up to the element width are honoured, and for 8/16-bit elements counts up to 31 behave like a shift of the promoted value truncated back to the element (0, or all sign bits for a signed right shift).",
  INP, "all operand bits and all shift counts below max(32, element width), for every integral " + CFG,
  TESTS + "No test executes a shift; 8-bit shifts alone have a dozen hand-written instruction sequences selected by instruction set, width and signedness.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_bit_shift_left/_S_bit_shift_right", X86), ("_S_bit_and/_S_bit_or/_S_bit_xor/_S_complement", BUI)],
  ["operator&,|,^,~,<<,>>"]),
P("C03", "Comparisons and mask operators are exact in every lane",
  "For every simd type, ==, !=, <, <=, >, >= and ! give a mask whose lane i is true exactly when the comparison holds for the operands' lanes i (signed or unsigned order as the element type demands; ordered IEEE semantics with NaN and -0 for floating point). For every mask type, !, &&, ||, &, |, ^, ==, != and the compound assignments, and broadcast, subscript, load and store of masks act lane by lane on the booleans.",
  INP, "all pairs of lane values / all mask contents for every " + CFG,
  TESTS + "Comparison results are only inspected through min/max in one configuration.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_equal_to/_S_not_equal_to/_S_less/_S_less_equal/_S_negate", X86), ("_MaskImpl operators", BUI + ", " + FIX + ", " + SCA)],
  ["comparison operators", "simd_mask operators"]),
P("C04", "Mask reductions report exactly the set of true lanes",
  "For every mask type and every mask content, all_of, any_of, none_of, some_of and popcount equal the corresponding quantifier/count over exactly size() lanes, and find_first_set/find_last_set give the smallest/largest index of a true lane (for a mask with at least one true lane). The answers do not depend on how the mask was produced (comparison, negation, load, broadcast, conversion) and never count padding lanes. The bool overloads agree with a one-lane mask.",
  ["inputs", "configurations", "histories"], "all 2^N mask contents (N = lanes) reached through different producing operations, for every " + CFG,
  TESTS + "No test calls a mask reduction; each has separate code for k-registers, movmsk, testc/ptest, partial vectors and fixed_size bitsets.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_all_of/_S_any_of/_S_none_of/_S_some_of/_S_popcount/_S_find_first_set/_S_find_last_set", X86 + ", " + BUI), ("bitset masks", FIX)],
  ["all_of", "any_of", "none_of", "some_of", "popcount", "find_first_set", "find_last_set"]),
P("C05", "Masked assignment changes exactly the selected lanes",
  "where(k, v) op= x, where(k, v) = x, ++/-- and unary minus on a where-expression give every lane selected by k the value the unmasked operation would give it and leave every other lane of v bit-for-bit unchanged; operands in unselected lanes never matter and never trap (for example integer division by zero in an unselected lane). This holds for vector and scalar right-hand sides, for masks being assigned through where(k, mask), and for where(bool, scalar value).",
  INP, "all masks, destination and source lane values for every " + CFG,
  TESTS + "No test executes a where-expression.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_masked_assign/_S_masked_cassign/_S_masked_unary, blend selection", BUI + ", " + X86), ("where_expression", SIMD)],
  ["where(k, v) = / op= / ++ / -- / unary -"]),
P("C06", "Loads and stores move exactly size() elements, converted, in order",
  "copy_from, copy_to and the load constructor (with element_aligned, vector_aligned and overaligned flags, for any arithmetic memory element type that the interface accepts, and for bool arrays with masks) transfer lane i to/from element i with static_cast value conversion. No byte of memory outside the size() addressed elements is written, and none outside is read in a way that can fault.",
  INP, "all lane values, all memory element types, all positions relative to inaccessible memory, for every " + CFG,
  TESTS + "Only element-aligned native float loads are executed; conversions on load/store and memory bounds are never observed.",
  [SIMD, BUI, X86, FIX, SCA, XC],
  [("_S_load/_S_store (simd and mask)", BUI + ", " + X86 + ", " + FIX), ("memory_alignment", SIMD)],
  ["copy_from", "copy_to", "load constructor"]),
P("C07", "Masked loads and stores touch exactly the selected elements",
  "where(k, v).copy_from(mem, flags) replaces exactly the selected lanes of v by the (converted) memory elements and keeps the others; where(k, v).copy_to(mem, flags) writes exactly the selected elements and leaves every other byte of memory unchanged. Memory belonging to unselected lanes may be inaccessible without causing a fault or an observable read or write. The same holds for masks loaded from and stored to bool arrays through where(k, mask).",
  INP, "all masks, lane values, memory element types and page-boundary positions, for every " + CFG,
  TESTS + "No test performs a masked load or store; maskmov, k-mask, bit-iteration and chunked implementations are chosen by type and instruction set.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_masked_load/_S_masked_store/_S_masked_store_nocvt, __maskload/__maskstore", X86 + ", " + BUI + ", " + FIX)],
  ["where(k, v).copy_from", "where(k, v).copy_to"]),
P("C08", "Value conversions between simd types equal static_cast in every lane",
  "Converting constructors, simd_cast, static_simd_cast (to a simd type or to an element type), and to_fixed_size/to_native/to_compatible give in lane i exactly static_cast of the source lane i: modulo 2^n between integers, truncation towards zero for in-range floating to integer, correct rounding for integer to floating and for narrowing floating conversions. Lane order is preserved whatever number of registers source and destination occupy.",
  INP, "all source values whose conversion is defined, all ordered pairs of element types, for every ABI and instruction-set level",
  TESTS + "No test executes a conversion; simd_x86_conversions.h has hundreds of type/width/ISA branches.",
  [XC, CONV, SIMD, FIX, X86],
  [("__convert_x86", XC), ("_SimdConverter", CONV), ("simd_cast/static_simd_cast", SIMD)],
  ["simd_cast", "static_simd_cast", "converting constructors", "to_fixed_size/to_native/to_compatible"]),
P("C09", "Mask conversions preserve every lane and invent none",
  "Converting a mask to a mask type of another element type or ABI (static_simd_cast, simd_cast, the implicit fixed_size conversion, to_fixed_size/to_native/to_compatible), to and from a bitset, and iterating over the true lanes of a mask all preserve the boolean of every lane i and yield nothing beyond the source lanes; when the destination has more lanes than the source (resizing cast) the extra lanes are false. Converting there and back is the identity.",
  ["inputs", "configurations"], "all mask contents, all pairs of element types/ABIs with admissible lane counts, every instruction-set level",
  TESTS + "No test converts a mask.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_convert/_S_to_bits/_S_from_bitmask/_S_bits_to_vector", X86 + ", " + BUI), ("__to_bitset/__from_bitset, where_range", SIMD)],
  ["static_simd_cast<mask>", "simd_cast<mask>", "__to_bitset/__from_bitset", "__proposed::where(mask)"]),
P("C10", "split and concat partition and join lanes in order",
  "split<Sizes...>(simd), split<V>(simd) and split<M>(mask) return pieces whose lanes, read one after the other, are the lanes of the argument in order; concat (of simds or of arrays of simds) returns the lanes of its arguments one after the other; resizing casts of simds keep leading lanes in place. Consequently concat(split(x)) is x for every way of splitting.",
  INP, "all lane contents and all decompositions of N lanes into parts, for every " + CFG,
  TESTS + "No test calls split or concat.",
  [SIMD, BUI, X86, FIX],
  [("split/concat/__extract_part/__concat", SIMD), ("_SimdTuple subdivision", FIX)],
  ["split", "concat", "resizing_simd_cast"]),
P("C11", "Construction and element access address exactly the intended lane",
  "Broadcast construction gives every lane the converted value; generator construction gives lane i the value returned for index i, calling the generator exactly once per index; reading v[i] returns lane i, and assigning, compound-assigning, incrementing or swapping through v[i] changes lane i as the scalar operation would and leaves every other lane unchanged. The same holds for masks.",
  ["inputs", "configurations", "histories"], "all lane values, indices and sequences of element updates, for every " + CFG,
  TESTS + "No test uses a generator or writes through a subscript.",
  [SIMD, BUI, FIX, SCA],
  [("_S_generator/_S_broadcast/_S_set", BUI + ", " + FIX), ("_SmartReference", SIMD)],
  ["constructors", "operator[]", "reference"]),
P("C12", "Reductions combine exactly the (selected) lanes",
  "reduce(v, op) equals combining all size() lanes with op in some order and grouping (so it is the exact result for associative and commutative operations, and uses every lane exactly once), and hmin/hmax give the least/greatest lane value. reduce/hmin/hmax of where(k, v) use exactly the selected lanes: with no lane selected they return the identity element (for hmin/hmax the numeric limits' max()/lowest()), and otherwise unselected lanes do not influence the result.",
  INP, "all lane values and masks, all standard operations (plus, multiplies, bit_and, bit_or, bit_xor, min, max) and user-defined operations, for every " + CFG,
  TESTS + "Only reduce of one native float vector of trivial values is executed.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_reduce", BUI + ", " + FIX + ", " + X86), ("reduce/hmin/hmax(const_where_expression)", SIMD)],
  ["reduce", "hmin", "hmax"]),
P("C13", "min, max, minmax and clamp select the right operand in every lane",
  "For every simd type and NaN-free operands, min(a,b), max(a,b), minmax(a,b) and clamp(v,lo,hi) give in lane i a value equal to the least, greatest, both, or lo/v/hi-bounded of the operands' lanes i, always bit-identical to one of those operands, with signed or unsigned order as the element type demands.",
  INP, "all NaN-free lane values (including infinities, subnormals, extreme integers) for every " + CFG,
  TESTS + "Only native float min/max are executed on one pair of values.",
  [SIMD, BUI, X86, FIX, SCA],
  [("_S_min/_S_max/_S_minmax", BUI + ", " + FIX + ", " + SCA), ("clamp", SIMD)],
  ["min", "max", "minmax", "clamp"]),
P("C14", "Exactly specified math functions give the exact result in every lane",
  "For float and double simd types (long double where supported), sqrt and fma are correctly rounded, and abs/fabs, copysign, trunc, floor, ceil, round, rint, nearbyint, lrint, llrint, lround, llround, frexp, ldexp, scalbn, scalbln, logb, ilogb, modf, fmod, remainder, remquo, nextafter, fdim, fmin, fmax, and the classification and quiet comparison functions (fpclassify, isfinite, isinf, isnan, isnormal, signbit, isgreater, isgreaterequal, isless, islessequal, islessgreater, isunordered) return in lane i exactly what IEEE-754 / the C library prescribes for the arguments' lanes i, including zeros, subnormals, infinities and NaN; integer abs is exact.",
  INP, "all floating-point argument values (in lrint-like functions: results that fit the result type) for every " + CFG,
  TESTS + "No test executes a math function.",
  [MATH, X86, BUI, FIX, SCA],
  [("_S_sqrt/_S_trunc/_S_round/_S_floor/_S_ceil/_S_ldexp/_S_isnan/...", X86 + ", " + BUI), ("frexp/logb/modf/copysign", MATH)],
  ["<cmath>-like overloads for simd"]),
P("C15", "Approximating math functions agree with the scalar function per lane",
  "For float and double simd types, the exponential, logarithm, power, trigonometric, hyperbolic, hypot, cbrt, error, gamma and special mathematical functions evaluate their own function on lane i only: the result agrees with the scalar standard function of the same name on lane i (bit-identical or both NaN for functions documented as element-wise calls; for the vectorised functions hypot within 2 ulp, and sin and cos within a few ulp of the result, or of 1.0 next to their zeros, over all finite arguments including huge ones), with exact special cases (NaN, infinities, signed zero).",
  INP, "all argument values in the functions' domains, for every " + CFG,
  TESTS + "No test executes a math function; sin, cos and hypot have vectorised range reduction and scaling.",
  [MATH],
  [("sin/cos/__fold_input/hypot/__hypot3", MATH), ("_GLIBCXX_SIMD_MATH_CALL_*", MATH)],
  ["sin, cos, hypot, exp, log, pow, ..."]),
P("C16", "ABI selection, sizes and type traits are mutually consistent",
  "For every element type T and lane count N supported on a target, deduce_t<T, N> names an ABI under which simd<T, Abi> has exactly N lanes, prefers a single register over fixed_size whenever one is wide enough, and fixed_size is accepted exactly up to max_fixed_size; native and compatible ABIs have the documented widths for each instruction-set level. simd_size_v, is_abi_tag, is_simd, is_simd_mask, is_simd_flag_type, memory_alignment_v, rebind_simd, resize_simd, sizeof and alignof agree with each other and with the simd and simd_mask types they describe, and invalid combinations are disabled rather than ill-formed.",
  ["configurations"], "every (element type, lane count, ABI tag) on every target: x86-64 from SSE2 to AVX-512, and the cross-compiled AArch64, ARMv7 and PPC64LE targets",
  TESTS + "Traits are compile-time facts that no stable test checks.",
  [SIMD, DET, FIX, NT],
  [("deduce/__determine_native_abi/_AbiList", SIMD), ("memory_alignment, rebind_simd, resize_simd", SIMD)],
  ["simd_abi::deduce_t, native, compatible, fixed_size", "simd_size_v, memory_alignment_v, rebind_simd_t, resize_simd_t, is_*"]),
P("C17", "Only the documented implicit conversions and overloads participate",
  "A simd is implicitly constructible from an arithmetic value exactly when the conversion is value-preserving (or the source is int, or unsigned int for an unsigned element type), and implicitly from another simd exactly for fixed_size of equal size with a non-narrowing, not lower-ranked element conversion; masks convert implicitly only between equal-size fixed_size masks. Mixed-type operators, where(bool, simd), bitwise/shift operators on floating point, assignment through an rvalue-only or const reference, and casts that would change value without static_simd_cast are rejected at overload resolution (no hard error).",
  ["configurations", "programs"], "all ordered pairs of element types and ABIs, and all operator/operand-type combinations, at every instruction-set level",
  TESTS + "tests/sfinae.cpp does not run here; the rules are a cross product of types.",
  [SIMD, DET],
  [("_ValuePreservingOrInt, __is_narrowing_conversion, __converts_to_higher_integer_rank", SIMD), ("deleted/where constraints, _SmartReference ref-qualifiers", SIMD)],
  ["overload resolution of the public interface"]),
P("C18", "Values are observationally independent of ABI, history and padding",
  "For any sequence of public operations on simd and mask objects, the lanes observed at the end are those of a plain array-of-lanes machine executing the same sequence, whatever ABI or instruction-set level is used and whatever operations were executed before. In particular no operation's result depends on how an equal-valued operand was produced (padding bits, chunk layout, vector mask versus bit mask), and objects not named by an operation never change.",
  ["histories", "programs", "configurations"], "all finite programs over the public operations and all initial register contents, for every " + CFG,
  TESTS + "No test composes more than two operations.",
  [SIMD, BUI, X86, FIX, SCA],
  [("implicit masking of partial vectors (_S_masked/_S_implicit_mask)", SIMD + ", " + BUI), ("bit-mask sanitisation (_BitMask)", SIMD), ("_SimdTuple chunking", FIX)],
  ["any sequence of public operations"],
  [{"name": "simd registers", "meaning": "sequence of lane values", "where": SIMD}, {"name": "mask registers", "meaning": "sequence of booleans", "where": SIMD}]),
P("C19", "Constant-folded and run-time evaluation agree",
  "An expression over simd or mask values gives the same lanes whether its operands are compile-time constants known to the optimiser or values only known at run time; the special paths the library takes for constant operands (shifts by literals, constant masks, partially constant operands, constant divisors) are never observable.",
  ["programs", "configurations"], "all operand values and operations, with all, some or none of the operands visible to the optimiser, for every " + CFG,
  TESTS + "The constant paths are only entered for literals in optimised code; no test contains such a comparison.",
  [SIMD, BUI, X86, FIX, MATH],
  [("_M_is_constprop / __builtin_is_constant_evaluated / __builtin_constant_p branches", BUI + ", " + X86 + ", " + SIMD)],
  ["all operators and functions"]),
P("C20", "The floating-point rounding direction in force is honoured",
  "In code compiled to respect it (-frounding-math), a rounding direction selected with fesetround (to nearest, upward, downward, towards zero) applies to every lane: +, -, *, /, sqrt, fma, fdim, ldexp, masked compound assignment and value conversions to floating point return the exact result rounded in that direction (the sign of zero sums included), and nearbyint, rint, lrint and llrint round to an integer in that direction. trunc, floor, ceil, round, lround, llround, modf, fmod, remainder, frexp, logb, ilogb, fmin, fmax, copysign, comparisons, conversions to integers and integer arithmetic give the same result, including the sign of zero, in every direction. No operation leaves a different direction in force.",
  INP, "all operand values under each rounding direction, for every " + CFG,
  TESTS + "No test changes the rounding direction; one fixed immediate operand in place of the current direction passes all of them.",
  [BUI, X86, FIX, MATH],
  [("_S_nearbyint, _S_rint, _S_plus_minus, _S_trunc (shift by 2^(p-1) fallbacks and ROUND immediates)", BUI + ", " + X86)],
  ["operators, sqrt, fma, conversions and rounding functions under fesetround"]),
]

LEVEL_NOTE = {}
TECH = {}
CLAIMED = []
NA = {}

exec(open(os.path.join(V, "tools", "claims.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i],
                       "level": "model_checking", "level_note": LEVEL_NOTE[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in PROPS if p["id"] not in CLAIMED],
     "notes": "TLA+ specification in spec/, conformance drivers in driver/, runner in tools/. No hooks in /repo are needed: every observation is made through the public interface."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
