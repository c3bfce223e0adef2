----------------------------- MODULE RoundCheck -----------------------------
(***************************************************************************)
(* Exhaustive check of the specification of rounding itself, on a format   *)
(* small enough to enumerate: for every operation, every pair of operands  *)
(* and the rounding direction in force (RDIR), the relation allows exactly *)
(* one result (or every NaN), and that result is the one the definition of *)
(* the direction names: the greatest representable value not above the     *)
(* exact one, the least not below it, the one of smaller magnitude.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat, Words, IEEE
VARIABLES op, a, b, r, pc
vars == <<op, a, b, r, pc>>

F == [w |-> 5, p |-> 2, emax |-> 3, ebits |-> 3, x87 |-> FALSE]
WordsOf == {WNat(F.w, n) : n \in 0..31}
NaNs == {x \in WordsOf : Dec(F, x).c = "nan"}
Ops == {"add", "sub", "mul", "div", "sqrt", "fma", "rint", "trunc", "floor", "ceil", "round"}
OK(o, x, y, z) ==
   CASE o = "add" -> AddOK(F, x, y, z)
     [] o = "sub" -> SubOK(F, x, y, z)
     [] o = "mul" -> MulOK(F, x, y, z)
     [] o = "div" -> DivOK(F, x, y, z)
     [] o = "sqrt" -> SqrtOK(F, x, z)
     [] o = "fma" -> FmaOK(F, x, y, x, z)          \* x*y + x
     [] OTHER -> RoundIntOK(F, o, x, z)
Results(o, x, y) == {z \in WordsOf : OK(o, x, y, z)}

Init == /\ op \in Ops /\ a \in WordsOf /\ b \in WordsOf
        /\ r = a /\ pc = "operands"
Compute == /\ pc = "operands"
           /\ r' \in Results(op, a, b)
           /\ pc' = "result"
           /\ UNCHANGED <<op, a, b>>
Next == Compute
Spec == Init /\ [][Next]_vars

\* one result, or any NaN
Deterministic == pc = "operands" =>
   LET R == Results(op, a, b) IN Cardinality(R) = 1 \/ R = NaNs
\* exact values as signed dyadics, where finite
Fin(x) == Dec(F, x).c \in {"zero", "fin"}
SDy(x) == LET d == Dec(F, x) IN [s |-> d.s, m |-> d.m, e |-> d.e]
Exact == LET x == SDy(a)  y == SDy(b)
             pr == [s |-> Xor1(x.s, y.s), m |-> BMul(x.m, y.m), e |-> x.e + y.e]
         IN CASE op = "add" -> SDySum(x, y)
              [] op = "sub" -> SDySum(x, [y EXCEPT !.s = 1 - @])
              [] op = "mul" -> pr
              [] op = "fma" -> SDySum(pr, x)
\* sign of x - y for signed dyadics
Diff(x, y) == LET z == SDySum(x, [y EXCEPT !.s = 1 - @])
              IN IF z.m = <<>> THEN 0 ELSE IF z.s = 1 THEN -1 ELSE 1
Below(y) == CASE Dec(F, y).c = "inf" -> Dec(F, y).s = 1  [] OTHER -> Diff(SDy(y), Exact) <= 0
Above(y) == CASE Dec(F, y).c = "inf" -> Dec(F, y).s = 0  [] OTHER -> Diff(SDy(y), Exact) >= 0
Greatest(S, y) == \A z \in S : Le(Dec(F, z), Dec(F, y))
Least(S, y) == \A z \in S : Le(Dec(F, y), Dec(F, z))
Numbers == WordsOf \ NaNs
Named == (pc = "result" /\ op \in {"add", "sub", "mul", "fma"} /\ Fin(a) /\ Fin(b)) =>
   LET lo == {z \in Numbers : Below(z)}
       hi == {z \in Numbers : Above(z)}
       isLo == r \in lo /\ Greatest(lo, r)
       isHi == r \in hi /\ Least(hi, r)
   IN CASE RDir = "d" -> isLo
        [] RDir = "u" -> isHi
        [] RDir = "z" -> IF Exact.s = 1 THEN isHi ELSE isLo
        [] OTHER -> isLo \/ isHi
\* rounding to integral values: within one of the operand, on the right side
Side == (pc = "result" /\ op \in {"rint", "trunc", "floor", "ceil", "round"} /\ Fin(a)) =>
   LET d == Diff(SDy(r), SDy(a))
       dir == IF op = "rint" THEN RDir
              ELSE CASE op = "trunc" -> "z" [] op = "floor" -> "d" [] op = "ceil" -> "u" [] OTHER -> "n"
       neg == SDy(a).s = 1
   IN /\ SDy(r).s = SDy(a).s
      /\ dir = "d" => d <= 0
      /\ dir = "u" => d >= 0
      /\ dir = "z" => (IF neg THEN d >= 0 ELSE d <= 0)
=============================================================================
