LANE_TRUST = ("Decides every recorded step (operand lanes, result lane) of the real library against the TLA+ relation with TLC; "
              "trusts g++ to compile the drivers faithfully, the recorder, TLC and the ISAs this CPU can run; inputs are enumerated edge values plus seeded random ones, not all 2^n.")
VEC_TRUST = ("Every recorded whole-register step of the real library is decided by TLC against VecOps.tla; masks up to 8 lanes are enumerated completely, wider ones structured plus seeded random; "
             "trusts g++, the recorder and TLC.")
def claim(i, tech, note):
    CLAIMED.append(i); TECH[i] = tech; LEVEL_NOTE[i] = note
LANE = "TLA+ lane semantics (Words, IEEE, LaneOps) checked by TLC against recorded steps of the real library (trace validation)"
VEC = "TLA+ register semantics (VecOps) checked by TLC against recorded steps of the real library (trace validation)"
claim("C01", LANE, LANE_TRUST)
claim("C02", LANE, LANE_TRUST)
claim("C03", LANE, LANE_TRUST)
claim("C04", VEC, VEC_TRUST)
claim("C05", LANE, LANE_TRUST)
MEM = "TLA+ conversion and memory-step semantics (IEEE, LaneOps, VecOps mem) checked by TLC against recorded loads/stores of the real library between guard pages"
claim("C06", MEM, LANE_TRUST)
claim("C07", MEM, LANE_TRUST)
claim("C08", LANE, LANE_TRUST)
claim("C09", VEC, VEC_TRUST)
claim("C10", VEC, VEC_TRUST)
claim("C11", VEC, VEC_TRUST)
claim("C12", VEC, VEC_TRUST)
claim("C13", LANE, LANE_TRUST)
claim("C14", LANE, LANE_TRUST)
claim("C15", "TLA+ relations for the approximating functions (FunOps over exact rationals, bit-exact for element-wise calls) checked by TLC against recorded steps of the real library (trace validation)", LANE_TRUST)
FACT_TRUST = ("The TLA+ model is checked exhaustively by TLC for its own consistency properties, and every compile-time fact extracted from the real headers (for each x86 level and cross target) is decided by TLC against it; "
              "trusts the compilers' constant evaluation and overload resolution.")
claim("C16", "TLA+ model of ABI selection (AbiModel), exhaustively checked by TLC and compared by TLC with compile-time facts extracted from the real headers for every target", FACT_TRUST)
claim("C17", "TLA+ model of the overload and conversion rules (ConsModel), exhaustively checked by TLC and compared by TLC with compile-time facts extracted from the real headers for every target", FACT_TRUST)
PROG_TRUST = ("Programs are generated by TLC from SimdGen.tla (bounded length, seeded) and every step of the real execution is decided by TLC against the register machine; all generated programs are finite samples of an infinite set. "
              "Trusts g++, the recorder and TLC.")
claim("C18", "TLA+ register machine (Simd.tla); programs generated by TLC simulation are executed by the real library for every ABI and instruction-set level and the recorded behaviours replayed as behaviours of the machine by TLC", PROG_TRUST)
claim("C19", "TLA+ register machine (Simd.tla); TLC-generated programs compiled to straight-line code with literal operands, recorded behaviours replayed as behaviours of the machine by TLC", PROG_TRUST)
claim("C20", "TLA+ IEEE-754 semantics with the rounding direction as a parameter (IEEE, MathOps), checked exhaustively by TLC on a small format (RoundCheck), and used by TLC to decide the steps recorded from the real library under each directed rounding (trace validation)", LANE_TRUST)
