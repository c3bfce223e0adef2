------------------------------ MODULE VecOps ------------------------------
(***************************************************************************)
(* Operations that relate whole registers.  A simd register is a sequence  *)
(* of lane words (or of small integer lane identities where only position  *)
(* matters), a mask register a sequence of 0/1.  Every operation is a      *)
(* relation between operand registers, memory and results.                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE BigNat
LOCAL INSTANCE Words
LOCAL INSTANCE IEEE
LOCAL INSTANCE LaneOps

-----------------------------------------------------------------------------
(* masks                                                                   *)
Lanes(m) == DOMAIN m
TrueLanes(m) == {i \in DOMAIN m : m[i] = 1}
AllOf(m) == \A i \in DOMAIN m : m[i] = 1
AnyOf(m) == \E i \in DOMAIN m : m[i] = 1
NoneOf(m) == ~AnyOf(m)
SomeOf(m) == AnyOf(m) /\ ~AllOf(m)
PopCount(m) == Cardinality(TrueLanes(m))
\* indices are reported from 0; for an all-false mask the function is not called (-1)
FindFirst(m) == IF NoneOf(m) THEN -1 ELSE (CHOOSE i \in TrueLanes(m) : \A j \in TrueLanes(m) : i <= j) - 1
FindLast(m) == IF NoneOf(m) THEN -1 ELSE (CHOOSE i \in TrueLanes(m) : \A j \in TrueLanes(m) : i >= j) - 1
MaskReductionsOK(e) ==
   LET m == e[3]
   IN /\ e[4] = B01(AllOf(m))  /\ e[5] = B01(AnyOf(m))
      /\ e[6] = B01(NoneOf(m)) /\ e[7] = B01(SomeOf(m))
      /\ e[8] = PopCount(m)    /\ e[9] = FindFirst(m) /\ e[10] = FindLast(m)

\* conversion keeps leading lanes, extra destination lanes are fill
Resize(x, n, fill) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE fill]
\* what the reductions say about a converted mask: any, all, parity of the count
MaskObsOK(e) == /\ e[4] = B01(AnyOf(e[3]))  /\ e[5] = B01(AllOf(e[3]))
                /\ e[6] = PopCount(e[3]) % 2
MaskConvOK(e) == e[4] = Resize(e[3], Len(e[4]), 0)
\* iteration visits exactly the true lanes, in increasing order
Ascending(m) == LET T == TrueLanes(m)
                IN [k \in 1..Cardinality(T) |->
                      (CHOOSE i \in T : Cardinality({j \in T : j < i}) = k - 1) - 1]
MaskIterOK(e) == e[4] = Ascending(e[3])

-----------------------------------------------------------------------------
(* partitions                                                              *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
SplitOK(e) == Flatten(e[4]) = e[3] /\ [i \in DOMAIN e[4] |-> Len(e[4][i])] = e[5]
ConcatOK(e) == e[4] = Flatten(e[3])
\* additional lanes are value-initialised
ZeroLike(w) == [k \in DOMAIN w |-> 0]
ResizeOK(e) == e[4] = Resize(e[3], Len(e[4]), ZeroLike(e[3][1]))

-----------------------------------------------------------------------------
(* construction and element access                                        *)
\* generator: lane i is g(i), g called exactly once per index
GeneratorOK(e) == /\ \A i \in DOMAIN e[3] : e[3][i] = 1
                  /\ e[5] = e[4]
\* update of one element: register before, index (from 0), new value of the
\* lane as the scalar operation yields it, register after
PutOK(before, i, v, after) == after = [before EXCEPT ![i + 1] = v]
\* swap of two elements
SwapOK(before, i, j, after) == after = [before EXCEPT ![i + 1] = before[j + 1], ![j + 1] = before[i + 1]]

\* a history of updates of one object: every step changes one element as the
\* scalar operation does (and yields the scalar result), or swaps two; the
\* register at the end is what the sequence of updates makes of the initial one
YieldsOK(op, old, new, ret) == ret = IF op \in {"pinc", "pdec"} THEN old ELSE new
UpdateOK(t, old, u) ==
   LET op == u[1]
   IN /\ YieldsOK(op, old, u[4], u[5])
      /\ CASE op = "copy"  -> u[4] = u[3][1]
           [] op = "icopy" -> ConvR("i32", t, u[3][1], u[4])
           [] op = "pinc"  -> LaneOK("inc", t, <<old, u[4]>>)
           [] op = "pdec"  -> LaneOK("dec", t, <<old, u[4]>>)
           [] OTHER        -> LaneOK(op, t, <<old>> \o u[3] \o <<u[4]>>)
RECURSIVE ChainOK(_, _, _, _, _)
ChainOK(t, s, us, k, final) ==
   IF k > Len(us) THEN s = final
   ELSE LET u == us[k]
            i == u[2] + 1
        IN CASE u[1] = "swap" ->
                  ChainOK(t, [s EXCEPT ![i] = s[u[3] + 1], ![u[3] + 1] = s[i]], us, k + 1, final)
             [] u[1] = "swapx" ->      \* with a scalar: lane becomes x, x becomes the old lane
                  /\ u[4] = u[3][1] /\ u[5] = s[i]
                  /\ ChainOK(t, [s EXCEPT ![i] = u[4]], us, k + 1, final)
             [] OTHER ->
                  /\ UpdateOK(t, s[i], u)
                  /\ ChainOK(t, [s EXCEPT ![i] = u[4]], us, k + 1, final)

-----------------------------------------------------------------------------
(* reductions.  For integers the result is the exact fold modulo 2^w.  For *)
(* floating point the recorded lanes are integers small enough that every  *)
(* grouping is exact, so all orders agree and the exact value is required. *)
RECURSIVE FoldW(_, _, _)
FoldW(op, t, s) ==
   IF Len(s) = 1 THEN s[1]
   ELSE LET h == FoldW(op, t, SubSeq(s, 1, Len(s) \div 2))
            g == FoldW(op, t, SubSeq(s, Len(s) \div 2 + 1, Len(s)))
        IN CASE op = "plus" -> WAdd(Wd(t), h, g)
             [] op = "mul"  -> WMul(Wd(t), h, g)
             [] op = "and"  -> WAnd(h, g)
             [] op = "or"   -> WOr(h, g)
             [] op = "xor"  -> WXor(h, g)
             [] op = "min"  -> IF ICmp(t, g, h) < 0 THEN g ELSE h
             [] op = "max"  -> IF ICmp(t, g, h) > 0 THEN g ELSE h
\* value of a float lane holding an integer
RECURSIVE FoldI(_, _)
FoldI(op, s) == IF Len(s) = 1 THEN s[1]
   ELSE LET h == s[1]  g == FoldI(op, Tail(s))
        IN CASE op = "plus" -> h + g [] op = "mul" -> h * g
FInt(t, a) == LET d == Dec(Fmt(t), a)
              IN IF d.m = <<>> THEN 0
                 ELSE (IF d.s = 1 THEN -1 ELSE 1)
                      * BToInt(IF d.e >= 0 THEN BShl(d.m, d.e) ELSE BShr(d.m, -d.e))
FIsSmallInt(t, a) == LET d == Dec(Fmt(t), a)
                     IN \/ d.c = "zero"
                        \/ /\ d.c = "fin"
                           /\ BitLen(d.m) + d.e <= 30
                           /\ d.e >= 0 \/ BMod2(d.m, -d.e) = <<>>
\* min/max over floating point: equal to one of the lanes and a bound
ExtremeOK(op, t, s, r) ==
   /\ \E i \in DOMAIN s : s[i] = r
   /\ \A i \in DOMAIN s : CmpR(IF op = "min" THEN "le" ELSE "ge", t, r, s[i])
ReduceOK(op, t, s, r) ==
   IF ~IsF(t) THEN r = FoldW(op, t, s)
   ELSE IF op \in {"min", "max"} THEN ExtremeOK(op, t, s, r)
   ELSE /\ \A i \in DOMAIN s : FIsSmallInt(t, s[i])
        /\ FIsSmallInt(t, r)
        /\ FInt(t, r) = FoldI(op, [i \in DOMAIN s |-> FInt(t, s[i])])
RECURSIVE Select(_, _, _)
Select(m, s, i) == IF i > Len(m) THEN <<>>
                   ELSE IF m[i] = 1 THEN <<s[i]>> \o Select(m, s, i + 1)
                   ELSE Select(m, s, i + 1)
\* e = [op, type, mask, lanes, identity, result]
MaskedReduceOK(op, t, m, s, id, r) ==
   IF NoneOf(m) THEN r = id ELSE ReduceOK(op, t, Select(m, s, 1), r)

-----------------------------------------------------------------------------
(* memory effects of a load or store: [kind, type, #foreign bytes changed, *)
(* faulted]                                                                *)
MemOK(e) == e[3] = 0 /\ e[4] = 0

-----------------------------------------------------------------------------
VecOK(e) ==
   LET op == e[1]
   IN CASE op = "mred"   -> MaskReductionsOK(e)
        [] op = "mconv"  -> MaskConvOK(e)
        [] op = "mobs"   -> MaskObsOK(e)
        [] op = "miter"  -> MaskIterOK(e)
        [] op = "split"  -> SplitOK(e)
        [] op = "concat" -> ConcatOK(e)
        [] op = "resize" -> ResizeOK(e)
        [] op = "gen"    -> GeneratorOK(e)
        [] op = "chain"  -> ChainOK(e[2], e[3], e[4], 1, e[5])
        [] op = "put"    -> PutOK(e[3], e[4], e[5], e[6])
        [] op = "swap"   -> SwapOK(e[3], e[4], e[5], e[6])
        [] op = "red"    -> ReduceOK(e[3], e[2], e[4], e[5])
        [] op = "wred"   -> MaskedReduceOK(e[3], e[2], e[4], e[5], e[6], e[7])
        [] op = "mem"    -> MemOK(e)
        [] op = "same"   -> e[3] = e[4]
        \* the rounding direction after library calls is the one set before them
        [] op = "fenv"   -> e[3] = e[4]
        [] OTHER -> Assert(FALSE, <<"unknown register operation", op>>)
=============================================================================
