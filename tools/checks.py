"""The checks, one function per property."""
from vlib import *

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ALL = os.environ["VERIF_ISAS"].split(",") if os.environ.get("VERIF_ISAS") else list(ISAS) if THOROUGH else BASE_ISAS
REGISTRY = {}


def check(prop):
    def deco(f):
        REGISTRY[prop] = f
        return f
    return deco


def types_by_isa(src, types, isas=ALL, defs=None, **kw):
    jobs = [Job(src, isa, {"TY": t, **(defs or {})}, **kw) for t in types for isa in isas]
    if THOROUGH and "extra" not in kw:
        # what the optimiser sees must not matter
        jobs += [Job(src, isa, {"TY": t, **(defs or {})}, extra=[o], **kw) for t in types for isa in isas if isa in ("sse2", "avx2", "skx") for o in ("-O0", "-O3")]
    return jobs


@check("C01")
def arith(c):
    jobs = types_by_isa("arith.cpp", FP_TYPES + INT_TYPES) + types_by_isa("arith.cpp", ["long double"], ["sse2", "avx2"])
    c.run_jobs(jobs)
    c.validate_lanes()
    return c.finish()


@check("C02")
def bitshift(c):
    c.run_jobs(types_by_isa("bitshift.cpp", INT_TYPES, defs={"ALLCOUNTS": 1} if THOROUGH else None))
    c.validate_lanes()
    return c.finish()


@check("C03")
def compare(c):
    c.run_jobs(types_by_isa("compare.cpp", FP_TYPES + INT_TYPES) + types_by_isa("compare.cpp", ["long double"], ["sse2"]))
    c.validate_lanes()
    return c.finish()


@check("C04")
def maskred(c):
    c.run_jobs(types_by_isa("maskred.cpp", FP_TYPES + INT_TYPES) + types_by_isa("maskred.cpp", ["long double"], ["avx2"]))
    c.validate_vecs("VecTrace")
    return c.finish()


@check("C05")
def where(c):
    c.run_jobs(types_by_isa("where.cpp", FP_TYPES + INT_TYPES) + types_by_isa("where.cpp", ["long double"], ["sse2"]))
    c.validate_lanes()
    return c.finish()


def mem_jobs(c, src):
    if c.tier == "quick":
        return types_by_isa(src, FP_TYPES + INT_TYPES) + types_by_isa(src, ["long double", "long long", "char", "wchar_t"], ["sse2", "skx"])
    jobs = []
    for p in range(7):
        jobs += [Job(src, isa, {"TY": t, "PART": p}) for t in FP_TYPES + INT_TYPES + ["long double", "long long", "char"] for isa in ALL]
    return jobs


@check("C06")
def mem(c):
    c.run_jobs(mem_jobs(c, "mem.cpp"))
    c.validate_lanes()
    c.validate_vecs("VecTrace")
    return c.finish()


@check("C07")
def wmem(c):
    c.run_jobs(mem_jobs(c, "wmem.cpp"))
    c.validate_lanes()
    c.validate_vecs("VecTrace")
    return c.finish()


def cvt_jobs(c, src):
    ts = FP_TYPES + INT_TYPES
    if c.tier == "quick":
        return types_by_isa(src, ts) + types_by_isa(src, ["long double", "char", "long long"], ["avx2"])
    return [Job(src, isa, {"TY": t, "PART": p, "UPARTS": 4, "NPARTS": 1}) for t in ts + ["long double", "long long", "char", "wchar_t"] for isa in ALL for p in range(4)]


@check("C08")
def cvt(c):
    c.run_jobs(cvt_jobs(c, "cvt.cpp"))
    c.validate_lanes()
    return c.finish()


@check("C09")
def mcvt(c):
    c.run_jobs(cvt_jobs(c, "mcvt.cpp") + [Job("mcvt.cpp", isa, {"TY": t, "SAME_ONLY": 1}, extra=["-O0"]) for t in FP_TYPES + INT_TYPES for isa in ("sse2", "avx2", "skx")])
    c.validate_vecs("VecTrace")
    return c.finish()


def alternating(src, c, extra=()):
    """one signedness per element size and instruction set, alternating (quick)"""
    if c.tier != "quick":
        return types_by_isa(src, FP_TYPES + INT_TYPES + ["long double"])
    jobs = types_by_isa(src, FP_TYPES)
    for k, isa in enumerate(ALL):
        for j in range(4):
            jobs.append(Job(src, isa, {"TY": INT_TYPES[2 * j + (j + k) % 2]}))
    return jobs + types_by_isa(src, ["long double"], ["avx2"])


@check("C10")
def split(c):
    c.run_jobs(alternating("split.cpp", c))
    c.validate_vecs("VecTrace")
    return c.finish()


@check("C11")
def elem(c):
    c.run_jobs(types_by_isa("elem.cpp", FP_TYPES + INT_TYPES) + types_by_isa("elem.cpp", ["long double", "long long", "wchar_t"], ["sse2", "avx512f"]))
    c.validate_lanes()
    c.validate_vecs("VecTrace")
    return c.finish()


@check("C12")
def reduce(c):
    c.run_jobs(types_by_isa("reduce.cpp", FP_TYPES + INT_TYPES) + types_by_isa("reduce.cpp", ["long double"], ["avx2"]))
    c.validate_vecs("VecTrace")
    return c.finish()


@check("C13")
def minmax(c):
    c.run_jobs(types_by_isa("minmax.cpp", FP_TYPES + INT_TYPES) + types_by_isa("minmax.cpp", ["long double"], ["sse2", "avx2"]))
    c.validate_lanes()
    return c.finish()


@check("C14")
def mathfn(c):
    ldisa = ["sse2"] if c.tier == "quick" else ALL
    c.run_jobs(types_by_isa("math.cpp", ["float", "double"] + INT_TYPES[::2]) + types_by_isa("math.cpp", ["long double"], ldisa))
    c.validate_lanes()
    return c.finish()


@check("C15")
def approx(c):
    """-ffp-contract=off where the lane has to equal the scalar function bit for bit"""
    ldisa = ["sse2"] if c.tier == "quick" else ALL
    jobs = []
    for t, isas in (("float", ALL), ("double", ALL), ("long double", ldisa)):
        for g in range(3):
            if g == 2 and c.tier == "quick":
                isas = [i for i in isas if i in ("sse2", "avx2", "skx")]
            jobs += [Job("fun.cpp", i, {"TY": t, "GRP": g}, extra=["-O2"] if g == 0 else ["-O2", "-ffp-contract=off"]) for i in isas]
    c.run_jobs(jobs)
    c.validate_lanes()
    return c.finish()


CROSS = {"aarch64": ("aarch64-linux-gnu-g++", []), "armv7": ("arm-linux-gnueabihf-g++", ["-march=armv7-a+simd"]), "ppc64le": ("powerpc64le-linux-gnu-g++", [])}


def fact_targets():
    """(name, compiler, flags): every x86 level (nothing is run) plus the cross targets"""
    t = [(i, GXX, ISAS[i][0]) for i in BASE_ISAS]
    for n, (cc, fl) in CROSS.items():
        if shutil.which(cc):
            t.append((n, cc, fl))
    return t


@check("C16")
def abi(c):
    c.run_model("AbiCheck")
    types = FP_TYPES + INT_TYPES + ALIAS_TYPES + ["long double"]
    cfgs = []
    for n, cc, fl in fact_targets():
        for t in types:
            if c.tier == "quick" and t in ("char16_t", "char32_t", "unsigned long", "long", "unsigned long long") and n not in ("avx2", "skx", "armv7"):
                continue
            cfgs.append(((n, t), cc, fl, {"TY": t}))
    res = c.facts("traits.cpp", cfgs)
    W = {"gen": 24, "ded": 18, "fix": 12, "x1": 10, "x4": 10, "x8": 10}
    want = {"gen": 1, "ded": 66, "fix": 70, "x1": 64, "x4": 16, "x8": 8}
    for (n, t), tabs in res.items():
        for k, w in W.items():
            v = tabs.get("facts_" + k, [])
            if len(v) != w * want[k]:
                raise CheckError("fact table %s of %s/%s has %d entries" % (k, n, t, len(v)))
            for i in range(want[k]):
                row = v[i * w:i * w + w]
                c.add_fact([k, n, t, row[0] if k != "gen" else 0, row], "%s on %s, simd element type %s" % (k, n, t))
    c.validate_vecs("AbiTrace")
    return c.finish(extra={"targets": sorted({n for n, _, _ in fact_targets()}), "element_types": types, "lane_counts": "0..69"})


TYPE_SEQ = ["bool", "signed char", "unsigned char", "char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
            "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t", "float", "double", "long double"]


@check("C17")
def constraints(c):
    c.run_model("ConsCheck")
    types = FP_TYPES + INT_TYPES + ALIAS_TYPES + ["long double"]
    v3, w5 = ["scalar", "native", "fixed4"], ["scalar", "native", "compat", "fixed4", "fixedN"]
    sw, pw, ow = 14, 22, 27
    cfgs = []
    for n, cc, fl in fact_targets():
        if c.tier == "quick" and n in ("ssse3", "sse4"):
            continue
        for t in types:
            if c.tier == "quick" and t in ("unsigned long long", "char32_t", "unsigned short", "unsigned long") and n not in ("avx2", "armv7"):
                continue
            cfgs.append(((n, t), cc, fl, {"TY": t, "PART": 2}))
    res = c.facts("cons.cpp", cfgs)
    for (n, t), tabs in res.items():
        s, p, o = tabs.get("facts_scal", []), tabs.get("facts_pair", []), tabs.get("facts_ops", [])
        if (len(s), len(p), len(o)) != (18 * 3 * sw, 17 * 15 * pw, 3 * ow):
            raise CheckError("fact tables of %s/%s have sizes %d %d %d" % (n, t, len(s), len(p), len(o)))
        for i, u in enumerate(TYPE_SEQ):
            for k, v in enumerate(v3):
                b = (i * 3 + k) * sw
                c.add_fact(["scal", n, t, u, s[b:b + sw]], "scalar %s with simd<%s, %s> on %s" % (u, t, v, n))
        for i, u in enumerate(TYPE_SEQ[1:]):
            for k, v in enumerate(v3):
                for j, w in enumerate(w5):
                    b = ((i * 3 + k) * 5 + j) * pw
                    c.add_fact(["pair", n, t, v, u, w, p[b:b + pw]], "simd<%s, %s> with simd<%s, %s> on %s" % (u, w, t, v, n))
        for k, v in enumerate(v3):
            c.add_fact(["ops", n, t, v, o[k * ow:k * ow + ow]], "operators of simd<%s, %s> on %s" % (t, v, n))
    c.validate_vecs("ConsTrace")
    return c.finish(extra={"targets": sorted({n for (n, t), _, _, _ in cfgs}), "element_types": types})


WIDTH = {"signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64}


def prog_class(t):
    """8- and 16-bit signed arithmetic wraps, so those types run the unsigned programs"""
    if t in FP_TYPES:
        return "f", 0
    if t.startswith("unsigned") or WIDTH[t] < 32:
        return "u", 0
    return "s", WIDTH[t]


@check("C18")
def machine(c):
    thorough = c.tier == "thorough"
    depth, num = (80, 60) if thorough else (60, 10)
    files, w = {}, {}
    for t in FP_TYPES + INT_TYPES:
        k = prog_class(t)
        if k not in files:
            fn = os.path.join(c.dir, "prog-%s%d.txt" % k)
            ps = c.programs(k[0], k[1], depth, num, c.seed * 1000 + ord(k[0]) + k[1])
            with open(fn, "w") as f:
                for p in ps:
                    f.write(" ".join("%s %d %d %d %d %d" % tuple(i) for i in p) + "\n")
            files[k] = fn
    opts = ["-O2", "-O0", "-O3", "-O1"]
    jobs = [Job("machine.cpp", i, {"TY": t, "PROGS": '"%s"' % files[prog_class(t)], **({"ALLABIS": 1} if thorough else {})}, extra=[opts[(ti + ii) % 4]])
            for ti, t in enumerate(FP_TYPES + INT_TYPES) for ii, i in enumerate(ALL)]
    c.run_jobs(jobs)
    c.validate_vecs("SimdTrace", weight=lambda s: len(s) * (6 if s.startswith('["prog","f') else 1) / 100)
    steps = sum(len(json.loads(s)[3]) for s in c.vecs)
    return c.finish(extra={"machine_steps": steps, "program_length": depth})


PARTIAL = {1: [3, 5, 15, 8, 31, 2], 2: [3, 7, 2, 9, 15, 5], 4: [3, 2, 5, 7, 3, 13], 8: [3, 5, 7, 2, 3, 5]}
FIXEDN = {1: [19, 3, 32], 2: [5, 27, 16], 4: [11, 3, 8], 8: [7, 12, 3]}


@check("C19")
def constprop(c):
    import gencode
    thorough = c.tier == "thorough"
    # per job: nrand random programs and nsys systematic ones with spi tested instructions each
    depth, nrand, nsys, spi = (45, 4, 14, 48) if thorough else (30, 1, 3, 24)
    per = nrand + nsys
    classes = {}
    for t in FP_TYPES + INT_TYPES:
        k = prog_class(t)
        classes.setdefault(k, []).append(t)
    jobs = []
    for k, ts in classes.items():
        n = len(ts) * len(ALL) * per
        n //= per
        rnd = c.programs(k[0], k[1], depth, n * nrand, c.seed * 1000 + 500 + ord(k[0]) + k[1])
        sy = c.sys_programs(k[0], k[1], spi, n * nsys, c.seed % 1000 * 31 + k[1])
        # every instruction-set level of a type gets its share of the cycle of (instruction, visibility) pairs
        ps = [p for i in range(n) for p in rnd[i * nrand:(i + 1) * nrand] + sy[i * nsys:(i + 1) * nsys]]
        j = 0
        for ti, t in enumerate(ts):
            for ii, isa in enumerate(ALL):
                fn = os.path.join(c.dir, "p-%s-%d-%s.cpp" % (k[0], k[1], "%s-%s" % (t.replace(" ", "_"), isa)))
                with open(fn, "w") as f:
                    f.write(gencode.source(ps[j:j + per], range(j, j + per)))
                j += per
                sz = 4 if t == "float" else 8 if t == "double" else WIDTH[t] // 8
                s = ii + ti + c.seed
                pn, fx = PARTIAL[sz], FIXEDN[sz]
                ns = [pn[s % len(pn)]] if not thorough else pn
                fs = [fx[s % len(fx)]] if not thorough else fx
                ab = ["native_simd<T>"] + ["simd<T, simd_abi::deduce_t<T, %d>>" % x for x in ns] + ["fixed_size_simd<T, %d>" % x for x in fs]
                if s % 3 == 0 or thorough:
                    ab.append("simd<T, simd_abi::scalar>")
                opt = ["-O2", "-O3", "-O1"][s % 3]
                jobs.append(Job(fn, isa, {"TY": t, "ABIS": ", ".join(ab)}, extra=[opt, "-ffp-contract=off"]))
    # objects initialised by constant expressions (gnu++17 makes the library's functions constexpr)
    for ti, t in enumerate(FP_TYPES + INT_TYPES):
        for ii, isa in enumerate(ALL):
            if thorough or (ii + ti + c.seed) % 2 == 0:
                salt = c.seed * 64 + ti * 8 + ii
                jobs.append(Job("ce.cpp", isa, {"TY": t, "NSET": 6 if thorough else 2, "SALT": salt}, extra=["-O1", "-std=gnu++17"]))
    c.run_jobs(jobs)
    ces = [json.loads(k) for k in c.vecs if k.startswith('["constant"')]
    ce_all, ce = sum(v[2] for v in ces), sum(v[3] for v in ces)
    vis = [json.loads(k) for k in c.vecs if k.startswith('["visible"')]
    progs = {k: v for k, v in c.vecs.items() if k.startswith('["prog"')}
    c.vecs = {k: v for k, v in c.vecs.items() if not k.startswith(('["visible"', '["constant"', '["prog"'))}
    c.validate_lanes()
    c.validate_vecs("VecTrace")
    c.vecs = progs
    steps, seen = sum(v[2] for v in vis), sum(v[3] for v in vis)
    if seen * 10 < steps:
        raise CheckError("the optimiser saw only %d of %d first operands: the programs do not reach the constant paths" % (seen, steps))
    c.validate_vecs("SimdTrace", weight=lambda s: len(s) * (6 if s.startswith('["prog","f') else 1) / 100)
    return c.finish(extra={"instructions_run": steps, "instructions_with_constant_first_operand": seen, "static_initialisers": ce_all, "evaluated_as_constant_expressions": ce, "program_length": depth})


@check("C20")
def rounding(c):
    """everything three times, under each directed rounding direction"""
    c.run_model("RoundCheck", envs=[{"RDIR": d} for d in "nudz"])
    rm = ["-O2", "-frounding-math"]
    d = {"DIRECTED": 1}
    jobs = types_by_isa("math.cpp", ["float", "double"], defs=d, extra=rm) + types_by_isa("math.cpp", ["long double"], ["sse2"], defs=d, extra=rm)
    jobs += types_by_isa("arith.cpp", FP_TYPES, defs=d, extra=rm)
    # conversions; divisions of small integers (which use floating point)
    jobs += types_by_isa("cvt.cpp", FP_TYPES + ["int", "unsigned int", "long", "unsigned long"], defs=d, extra=rm)
    jobs += [Job("arith.cpp", i, {"TY": t, **d}, extra=rm) for k, i in enumerate(ALL) for j, t in enumerate(INT_TYPES) if c.tier != "quick" or (j + k) % 4 == 0]
    jobs += types_by_isa("where.cpp", FP_TYPES, ALL if c.tier != "quick" else ["sse2", "avx", "skx"], defs=d, extra=rm)
    c.run_jobs(jobs)
    for r in sorted(c.directed):
        c.validate_lanes(rdir=r)
    c.validate_vecs("VecTrace")
    return c.finish()
