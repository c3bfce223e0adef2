-------------------------------- MODULE Simd --------------------------------
(***************************************************************************)
(* The register machine behind property C18: a program over simd objects   *)
(* v[1..4], mask objects m[1..3], a block of memory and a block of bools.  *)
(* A simd object is nothing but the sequence of its lanes, a mask object   *)
(* nothing but a sequence of 0/1: no padding, no chunks, no ABI.           *)
(* InstrOK is the transition relation of one instruction                   *)
(*     <<op, d, a, b, k, imm>>   (registers d, a, b; mask k; immediate)     *)
(* between the machine states s and s2, with the scalars it yields in out. *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Words
LOCAL INSTANCE BigNat
LOCAL INSTANCE IEEE
LOCAL INSTANCE LaneOps
LOCAL INSTANCE MathOps
LOCAL INSTANCE VecOps

NV == 4
NM == 3
\* the immediate n as a lane of type t
LaneImm(t, n, r) == IF IsF(t) THEN ConvR("i32", t, IF n >= 0 THEN WNat(32, n) ELSE WNeg(32, WNat(32, 0 - n)), r)
                    ELSE r = (IF n >= 0 THEN WNat(Wd(t), n) ELSE WNeg(Wd(t), WNat(Wd(t), 0 - n)))
ZeroLane(t) == [i \in 1..((Wd(t) + 11) \div 12) |-> 0]
\* special constants: zeros, infinities, NaN and the like; extreme bit patterns for integers
F32Special == << <<0, 0, 0>>, <<0, 0, 128>>, <<0, 2048, 127>>, <<0, 2048, 255>>, <<0, 3072, 127>>, <<4095, 2047, 127>>, <<1, 0, 0>>, <<0, 3072, 63>> >>
F64Special == << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 8>>, <<0, 0, 0, 0, 4080, 7>>, <<0, 0, 0, 0, 4080, 15>>, <<0, 0, 0, 0, 4088, 7>>,
                 <<4095, 4095, 4095, 4095, 4079, 7>>, <<1, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 4088, 3>> >>
Special(t, imm) ==
  LET k == imm % 8 IN
  IF IsF(t) THEN (IF Wd(t) = 32 THEN F32Special[k + 1] ELSE F64Special[k + 1])
  ELSE CASE k = 0 -> WNot(Wd(t), WNat(Wd(t), 0)) [] k = 1 -> WShl(Wd(t), WNat(Wd(t), 1), Wd(t) - 1) [] k = 2 -> WShl(Wd(t), WNat(Wd(t), 1), Wd(t) \div 2)
         [] k = 3 -> WNot(Wd(t), WShl(Wd(t), WNat(Wd(t), 1), Wd(t) - 1)) [] k = 4 -> WNat(Wd(t), 0) [] k = 5 -> WNat(Wd(t), 1)
         [] k = 6 -> WShl(Wd(t), WNat(Wd(t), 15), Wd(t) \div 2 - 2) [] k = 7 -> WNat(Wd(t), 127)
InitState(t, n) == [v |-> [r \in 1..NV |-> [i \in 1..n |-> ZeroLane(t)]],
                    m |-> [r \in 1..NM |-> [i \in 1..n |-> 0]],
                    mem |-> [i \in 1..2*n |-> ZeroLane(t)],
                    bm |-> [i \in 1..2*n |-> 0]]

\* a value is copied: the same bits (any NaN for a NaN)
SameLane(t, a, b) == IF IsF(t) THEN SameFP(Fmt(t), a, b) ELSE a = b
SameReg(t, A, B) == \A i \in DOMAIN A : SameLane(t, A[i], B[i])
Map1(op, t, A, R) == \A i \in DOMAIN R : LaneOK(op, t, <<A[i], R[i]>>)
Map2(op, t, A, B, R) == \A i \in DOMAIN R : LaneOK(op, t, <<A[i], B[i], R[i]>>)
Cmps == {"eq", "ne", "lt", "le", "gt", "ge"}

\* only the named parts may change
KeepV(s, s2, D) == \A r \in 1..NV : r \notin D => s2.v[r] = s.v[r]
KeepM(s, s2, D) == \A r \in 1..NM : r \notin D => s2.m[r] = s.m[r]
FrameV(s, s2, D) == KeepV(s, s2, D) /\ s2.m = s.m /\ s2.mem = s.mem /\ s2.bm = s.bm
FrameM(s, s2, D) == s2.v = s.v /\ KeepM(s, s2, D) /\ s2.mem = s.mem /\ s2.bm = s.bm
FrameMem(s, s2) == s2.v = s.v /\ s2.m = s.m /\ s2.bm = s.bm
FrameBm(s, s2) == s2.v = s.v /\ s2.m = s.m /\ s2.mem = s.mem
Nothing(s, s2) == s2 = s

\* where(M[k], V[d]) op= B
Masked2(op, t, K, D, B, R) == \A i \in DOMAIN R : IF K[i] = 1 THEN LaneOK(op, t, <<D[i], B[i], R[i]>>) ELSE R[i] = D[i]
Masked1(op, t, K, D, R) == \A i \in DOMAIN R : IF K[i] = 1 THEN LaneOK(op, t, <<D[i], R[i]>>) ELSE R[i] = D[i]
Blend(K, D, B) == [i \in DOMAIN D |-> IF K[i] = 1 THEN B[i] ELSE D[i]]

Shift(t, imm) == imm % Wd(t)
Rotated(A) == LET h == Len(A) \div 2 IN IF Len(A) % 2 = 0 THEN SubSeq(A, h + 1, Len(A)) \o SubSeq(A, 1, h) ELSE A
OrZero(K, A, t) == [i \in DOMAIN A |-> IF K[i] = 1 THEN A[i] ELSE ZeroLane(t)]

\* integer extremes
MaxLane(t) == IF Sg(t) THEN WShrU(Wd(t), WNot(Wd(t), WNat(Wd(t), 0)), 1) ELSE WNot(Wd(t), WNat(Wd(t), 0))
MinLane(t) == IF Sg(t) THEN WShl(Wd(t), WNat(Wd(t), 1), Wd(t) - 1) ELSE WNat(Wd(t), 0)
\* an integer lane that has been in a variable of type u (other combinations are exact)
Narrowed(t, u, a) == IF IsF(t) \/ IsF(u) THEN a ELSE WResize(Wd(u), Wd(t), WResize(Wd(t), Wd(u), a, Sg(t)), Sg(u))
FPDigits(u) == IF Wd(u) = 32 THEN 24 ELSE 53
\* the cvt instruction.  Integers pass through a floating-point type after a shift that makes them fit
\* its significand; floating-point lanes pass through an integer type: their magnitude if it is
\* unsigned, zero where they do not fit.
ThereAndBack(t, u, a, r) ==
  IF ~IsF(t) THEN
    IF IsF(u) THEN (IF Wd(t) > FPDigits(u) THEN ShrR(t, a, Wd(t) - FPDigits(u), r) ELSE r = a)
    ELSE r = Narrowed(t, u, a)
  ELSE LET d == Dec(Fmt(t), a)
           sg == IF Sg(u) THEN d.s ELSE 0
           mag == IF d.c = "fin" THEN TruncMag(d) ELSE <<>>
           x == Dec(Fmt(t), r)
       IN IF mag = <<>> \/ BitLen(mag) > Wd(u) - (IF Sg(u) THEN 1 ELSE 0) THEN x.c = "zero" /\ x.s = 0
          ELSE x.c = "fin" /\ x.s = sg /\ x.e <= 1000000 /\ BCmp(TruncMag(x), mag) = 0 /\ ~HasFrac(x)

InstrOK(t, n, ins, s, s2, out) ==
  LET op == ins[1]  d == ins[2]  a == ins[3]  b == ins[4]  k == ins[5]  imm == ins[6]
      A == s.v[a]  B == s.v[b]  D == s.v[d]  R == s2.v[d]
      K == s.m[k]
      \* mask forms use the same fields, modulo the smaller register file
      da == ((d - 1) % NM) + 1  aa == ((a - 1) % NM) + 1  bb == ((b - 1) % NM) + 1
      MA == s.m[aa]  MB == s.m[bb]  MD == s.m[da]  MR == s2.m[da]
      off == imm % (n + 1)
  IN
  CASE op \in {"nop", "opq", "olane", "omlane"} -> Nothing(s, s2)
    \* ---- construction
    [] op = "const" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : LaneImm(t, imm, R[i])
    [] op = "sconst" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, Special(t, imm), R[i])
    [] op = "iota"  -> FrameV(s, s2, {d}) /\ \A i \in 1..n : LaneImm(t, (imm % 16) + i - 1, R[i])
    [] op = "copy"  -> FrameV(s, s2, {d}) /\ SameReg(t, A, R)
    [] op = "bclane" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, A[(imm % n) + 1], R[i])
    [] op = "setlane" -> /\ FrameV(s, s2, {d}) /\ LaneImm(t, imm, R[((k + imm) % n) + 1])
                         /\ \A i \in 1..n : i # (((k + imm) % n) + 1) => R[i] = D[i]
    [] op = "addlane" -> /\ FrameV(s, s2, {d})
                         /\ \E w \in {s2.v[a][(imm % n) + 1]} : LaneOK("add", t, <<D[(imm % n) + 1], IF a = d THEN D[(imm % n) + 1] ELSE w, R[(imm % n) + 1]>>)
                         /\ \A i \in 1..n : i # (imm % n) + 1 => R[i] = D[i]
    \* ---- element-wise
    [] op \in {"add", "sub", "mul", "div", "and", "or", "xor", "min", "max"} -> FrameV(s, s2, {d}) /\ Map2(op, t, A, B, R)
    [] op \in {"neg", "not", "inc", "dec"} -> FrameV(s, s2, {d}) /\ Map1(op, t, A, R)
    [] op = "shl" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : ShlR(t, A[i], Shift(t, imm), R[i])
    [] op = "shr" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : ShrR(t, A[i], Shift(t, imm), R[i])
    [] op = "abs" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : MathOK(IF IsF(t) THEN "abs" ELSE "iabs", t, <<A[i], R[i]>>)
    [] op \in {"trunc", "floor", "ceil", "sqrt"} -> FrameV(s, s2, {d}) /\ \A i \in 1..n : MathOK(op, t, <<A[i], R[i]>>)
    [] op = "copysign" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : MathOK(op, t, <<A[i], B[i], R[i]>>)
    \* shift counts per lane: B modulo the width
    [] op = "shlv" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : ShlR(t, A[i], B[i][1] % Wd(t), R[i])
    [] op = "shrv" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : ShrR(t, A[i], B[i][1] % Wd(t), R[i])
    \* V[d] = V[a]++ with two distinct objects
    [] op = "pinc" -> IF a = d THEN Nothing(s, s2)
                      ELSE FrameV(s, s2, {a, d}) /\ SameReg(t, A, R) /\ Map1("inc", t, A, s2.v[a])
    \* V[d] = V[a] / imm, V[b] = V[a] % imm
    [] op = "divc" -> IF d = b THEN Nothing(s, s2)
                      ELSE /\ FrameV(s, s2, {d, b})
                           /\ \E c \in {IF Sg(t) THEN WNat(Wd(t), imm) ELSE WNat(Wd(t), imm)} :
                                \A i \in 1..n : /\ DivR(t, A[i], c, R[i])
                                                /\ RemR(t, A[i], c, R[i], s2.v[b][i])
    \* ---- memory
    [] op = "load"  -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, s.mem[off + i], R[i])
    [] op = "loada" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, s.mem[i], R[i])
    [] op = "store" -> FrameMem(s, s2) /\ \A i \in 1..2*n : IF i > off /\ i <= off + n THEN SameLane(t, A[i - off], s2.mem[i]) ELSE s2.mem[i] = s.mem[i]
    [] op = "mload" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF K[i] = 1 THEN SameLane(t, s.mem[off + i], R[i]) ELSE R[i] = D[i]
    [] op = "mstore" -> FrameMem(s, s2) /\ \A i \in 1..2*n : IF i > off /\ i <= off + n /\ K[i - off] = 1 THEN SameLane(t, A[i - off], s2.mem[i]) ELSE s2.mem[i] = s.mem[i]
    \* ---- where
    [] op = "wcopy"  -> FrameV(s, s2, {d}) /\ SameReg(t, Blend(K, D, A), R)
    [] op = "wconst" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF K[i] = 1 THEN LaneImm(t, imm, R[i]) ELSE R[i] = D[i]
    [] op = "wsconst" -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF K[i] = 1 THEN SameLane(t, Special(t, imm), R[i]) ELSE R[i] = D[i]
    [] op = "wadd"   -> FrameV(s, s2, {d}) /\ Masked2("add", t, K, D, A, R)
    [] op = "wsub"   -> FrameV(s, s2, {d}) /\ Masked2("sub", t, K, D, A, R)
    [] op = "wmul"   -> FrameV(s, s2, {d}) /\ Masked2("mul", t, K, D, A, R)
    [] op \in {"wor", "wxor"} -> FrameV(s, s2, {d}) /\ Masked2(IF op = "wor" THEN "or" ELSE "xor", t, K, D, A, R)
    [] op = "wand"   -> FrameV(s, s2, {d}) /\ Masked2("and", t, K, D, A, R)
    [] op = "winc"   -> FrameV(s, s2, {d}) /\ Masked1("inc", t, K, D, R)
    [] op = "wdec"   -> FrameV(s, s2, {d}) /\ Masked1("dec", t, K, D, R)
    \* V[d] = -where(M[k], V[a])
    [] op = "wneg"   -> FrameV(s, s2, {d}) /\ Masked1("neg", t, K, A, R)
    \* ---- conversions that change nothing (fixed_size and back, wider type and back)
    [] op \in {"fixc", "wide"} -> FrameV(s, s2, {d}) /\ SameReg(t, A, R)
    [] op = "swaph"  -> FrameV(s, s2, {d}) /\ SameReg(t, Rotated(A), R)
    [] op = "wshl"   -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF K[i] = 1 THEN ShlR(t, D[i], Shift(t, imm), R[i]) ELSE R[i] = D[i]
    [] op = "wshr"   -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF K[i] = 1 THEN ShrR(t, D[i], Shift(t, imm), R[i]) ELSE R[i] = D[i]
    [] op = "clamp"  -> FrameV(s, s2, {d}) /\ \A i \in 1..n : IF CmpR("le", t, B[i], D[i]) THEN ClampR(t, A[i], B[i], D[i], R[i]) ELSE ClampR(t, A[i], D[i], B[i], R[i])
    \* ---- through another element type (out[1]) and back
    [] op = "cvt"    -> FrameV(s, s2, {d}) /\ \A i \in 1..n : ThereAndBack(t, out[1], A[i], R[i])
    [] op = "memw"   -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, Narrowed(t, out[1], A[i]), R[i])
    [] op = "mmemw"  -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, Narrowed(t, out[1], IF K[i] = 1 THEN A[i] ELSE s.mem[i]), R[i])
    \* ---- swap(V[d][imm], V[a][k]) of two distinct objects
    [] op = "swapl"  -> IF a = d THEN Nothing(s, s2)
                        ELSE LET x == (imm % n) + 1  y == (k % n) + 1 IN
                             /\ FrameV(s, s2, {a, d}) /\ SameLane(t, A[y], R[x]) /\ SameLane(t, D[x], s2.v[a][y])
                             /\ \A i \in 1..n : /\ i # x => R[i] = D[i]
                                               /\ i # y => s2.v[a][i] = A[i]
    \* ---- split into n/3 and the rest, concatenated the other way round; four quarters in reverse
    [] op = "rotc"   -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, A[((i - 1 + (n \div 3)) % n) + 1], R[i])
    [] op = "revq"   -> FrameV(s, s2, {d}) /\ (IF n % 4 # 0 THEN SameReg(t, A, R)
                                              ELSE \A i \in 1..n : SameLane(t, A[(3 - ((i - 1) \div (n \div 4))) * (n \div 4) + ((i - 1) % (n \div 4)) + 1], R[i]))
    [] op = "rot"    -> FrameV(s, s2, {d}) /\ \A i \in 1..n : SameLane(t, A[((i - 1 + imm) % n) + 1], R[i])
    \* ---- masks
    [] op \in Cmps -> FrameM(s, s2, {da}) /\ Map2(op, t, A, B, MR)
    [] op = "mlnot"  -> FrameM(s, s2, {da}) /\ Map1("lnot", t, A, MR)
    [] op \in {"isnan", "isfinite", "signbit"} -> FrameM(s, s2, {da}) /\ \A i \in 1..n : MathOK(op, t, <<A[i], MR[i]>>)
    [] op = "mconst" -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> imm % 2]
    [] op = "mnot"   -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> 1 - MA[i]]
    [] op \in {"mand", "mland"} -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> MA[i] * MB[i]]
    [] op \in {"mor", "mlor"}   -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> IF MA[i] + MB[i] > 0 THEN 1 ELSE 0]
    [] op \in {"mxor", "mne"}   -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> IF MA[i] # MB[i] THEN 1 ELSE 0]
    [] op = "meq"    -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> IF MA[i] = MB[i] THEN 1 ELSE 0]
    [] op = "mswapl" -> IF aa = da THEN Nothing(s, s2)
                        ELSE FrameM(s, s2, {da, aa}) /\ MR = [MD EXCEPT ![(imm % n) + 1] = MA[(k % n) + 1]] /\ s2.m[aa] = [MA EXCEPT ![(k % n) + 1] = MD[(imm % n) + 1]]
    [] op \in {"mcopy", "mfix", "mwide", "mcvt"} -> FrameM(s, s2, {da}) /\ MR = MA
    [] op = "mset"   -> FrameM(s, s2, {da}) /\ MR = [MD EXCEPT ![(imm % n) + 1] = k % 2]
    [] op = "mwcopy" -> FrameM(s, s2, {da}) /\ MR = Blend(K, MD, MA)
    [] op = "mwconst" -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> IF K[i] = 1 THEN imm % 2 ELSE MD[i]]
    [] op = "mswaph" -> FrameM(s, s2, {da}) /\ MR = Rotated(MA)
    [] op = "bload"  -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> s.bm[off + i]]
    [] op = "bstore" -> FrameBm(s, s2) /\ s2.bm = [i \in 1..2*n |-> IF i > off /\ i <= off + n THEN MA[i - off] ELSE s.bm[i]]
    [] op = "mbload" -> FrameM(s, s2, {da}) /\ MR = [i \in 1..n |-> IF K[i] = 1 THEN s.bm[off + i] ELSE MD[i]]
    [] op = "mbstore" -> FrameBm(s, s2) /\ s2.bm = [i \in 1..2*n |-> IF i > off /\ i <= off + n /\ K[i - off] = 1 THEN MA[i - off] ELSE s.bm[i]]
    \* ---- observers
    [] op = "mred"   -> /\ Nothing(s, s2)
                        /\ out = <<B01(AllOf(MA)), B01(AnyOf(MA)), B01(NoneOf(MA)), B01(SomeOf(MA)), PopCount(MA), FindFirst(MA), FindLast(MA)>>
    [] op = "hsum"   -> Nothing(s, s2) /\ out[1] = FoldW("plus", t, A)
    [] op = "hxor"   -> Nothing(s, s2) /\ out[1] = FoldW("xor", t, A)
    [] op = "hmin"   -> Nothing(s, s2) /\ out[1] = FoldW("min", t, A) /\ out[2] = FoldW("max", t, A)
    [] op \in {"hmul", "hand", "hor"} -> Nothing(s, s2) /\ out[1] = FoldW(CASE op = "hmul" -> "mul" [] op = "hand" -> "and" [] op = "hor" -> "or", t, A)
    [] op = "whmin"  -> Nothing(s, s2) /\ (IF NoneOf(K) THEN out[1] = MaxLane(t) /\ out[2] = MinLane(t)
                                          ELSE out[1] = FoldW("min", t, Select(K, A, 1)) /\ out[2] = FoldW("max", t, Select(K, A, 1)))
    [] op = "whsum"  -> Nothing(s, s2) /\ out[1] = FoldW("plus", t, OrZero(K, A, t))
    [] op = "get"    -> Nothing(s, s2) /\ SameLane(t, A[(imm % n) + 1], out[1])
    [] OTHER -> Assert(FALSE, <<"unknown instruction", op>>)
=============================================================================
