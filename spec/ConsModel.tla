----------------------------- MODULE ConsModel -----------------------------
(* Which implicit conversions, operators and functions take part in overload
   resolution (property C17), derived from a handful of rules about element
   types and ABI tags. *)
EXTENDS AbiModel, Integers

TypeSeq == <<"bool", "signed char", "unsigned char", "char", "short", "unsigned short", "int", "unsigned int",
             "long", "unsigned long", "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t",
             "float", "double", "long double">>

Signed(tgt, t) ==
  CASE t = "char"    -> tgt \in X86
    [] t = "wchar_t" -> tgt \in X86 \cup {"ppc64le"}
    [] t \in {"signed char", "short", "int", "long", "long long"} \cup FpTypes -> TRUE
    [] OTHER -> FALSE
IsInt(t) == t # "bool" /\ t \notin FpTypes
Digits(tgt, t) ==
  CASE t = "bool"   -> 1
    [] t = "float"  -> 24
    [] t = "double" -> 53
    [] t = "long double" -> (CASE tgt \in X86 -> 64 [] tgt = "aarch64" -> 113 [] tgt = "ppc64le" -> 106 [] tgt = "armv7" -> 53)
    [] OTHER -> 8 * TypeBytes(tgt, t) - (IF Signed(tgt, t) THEN 1 ELSE 0)
MaxExp(tgt, t) ==
  CASE t = "float"  -> 128
    [] t = "double" -> 1024
    [] t = "long double" -> (IF tgt \in X86 \cup {"aarch64"} THEN 16384 ELSE 1024)
    [] OTHER -> Digits(tgt, t)

(* some value of u has no exact counterpart in t *)
Narrow(tgt, u, t) ==
  IF u = t THEN FALSE
  ELSE \/ Digits(tgt, u) > Digits(tgt, t)
       \/ MaxExp(tgt, u) > MaxExp(tgt, t)
       \/ (u # "bool" /\ Signed(tgt, u) /\ ~Signed(tgt, t))
       \/ (u \in FpTypes /\ IsInt(t))

(* usual arithmetic conversions *)
Promote(tgt, t) ==
  CASE t \in FpTypes -> t
    [] t = "wchar_t" -> (IF Signed(tgt, t) THEN "int" ELSE "unsigned int")
    [] t = "char32_t" -> "unsigned int"
    [] t \in {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"} -> t
    [] OTHER -> "int"
RankSeq == <<"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long">>
IdxOf(t) == CHOOSE i \in 1..6 : RankSeq[i] = t
FpIdx(t) == CASE t = "float" -> 1 [] t = "double" -> 2 [] t = "long double" -> 3 [] OTHER -> 0
Common(tgt, a, b) ==
  LET p == Promote(tgt, a) q == Promote(tgt, b) IN
  IF FpIdx(p) > 0 \/ FpIdx(q) > 0 THEN (IF FpIdx(p) >= FpIdx(q) THEN p ELSE q)
  ELSE LET i == IF IdxOf(p) <= IdxOf(q) THEN IdxOf(p) ELSE IdxOf(q)   \* lower
           j == IF IdxOf(p) <= IdxOf(q) THEN IdxOf(q) ELSE IdxOf(p)   \* higher
           lo == RankSeq[i] hi == RankSeq[j]
           sl == Signed(tgt, lo) sh == Signed(tgt, hi)
       IN IF sl = sh \/ ~sh THEN hi
          ELSE (* hi signed, lo unsigned *)
               IF Digits(tgt, hi) >= Digits(tgt, lo) THEN hi ELSE RankSeq[j + 1]

(* implicit broadcast from an arithmetic value *)
Broadcast(tgt, u, t) ==
  /\ u # "bool"
  /\ \/ u = t \/ u = "int"
     \/ (u = "unsigned int" /\ ~Signed(tgt, t))
     \/ ~Narrow(tgt, u, t)

(* a simd type is <<element type, ABI kind, lanes or bytes>> *)
Abi(tgt, t, w, nat) ==
  CASE w = "scalar" -> <<"s", 1>>
    [] w = "native" -> (IF RegBytes(tgt, t) = 0 THEN <<"s", 1>> ELSE <<"v", RegBytes(tgt, t)>>)
    [] w = "compat" -> (IF CompatBytes(tgt, t) = 0 THEN <<"s", 1>> ELSE <<"v", CompatBytes(tgt, t)>>)
    [] w = "fixed4" -> <<"f", 4>>
    [] w = "fixedN" -> <<"f", IF nat <= 32 THEN nat ELSE 32>>
SizeOf(tgt, t, a) == CASE a[1] = "s" -> 1 [] a[1] = "f" -> a[2] [] a[1] = "v" -> a[2] \div TypeBytes(tgt, t)

SameType(u, b, t, a) == u = t /\ b[1] = a[1] /\ b[2] = a[2]
BothFixed(b, a) == b[1] = "f" /\ a[1] = "f" /\ b[2] = a[2]
(* simd<u, b> converts implicitly to simd<t, a> *)
Implicit(tgt, u, b, t, a) ==
  \/ SameType(u, b, t, a)
  \/ /\ BothFixed(b, a) /\ ~Narrow(tgt, u, t)
     /\ (TypeBytes(tgt, u) < TypeBytes(tgt, t) \/ Common(tgt, u, t) = t)
MaskImplicit(u, b, t, a) == SameType(u, b, t, a) \/ BothFixed(b, a)

Any == -1
B(c, v) == IF c THEN v ELSE 0
V3 == <<"scalar", "native", "fixed4">>
W5 == <<"scalar", "native", "compat", "fixed4", "fixedN">>

---------------------------------------------------------------------------
ScalRow(tgt, t, u) ==
  LET c == Broadcast(tgt, u, t)
      bl == u = "bool"
  IN << B(c, 1), B(c, 1), B(c, 1), B(c, 1),
        B(c, 7), B(c, 7), B(c, 15), B(c, 3),
        B(c /\ IsInt(t), 7),
        IF bl THEN Any ELSE B(c, 1),
        B(bl, 2),
        B(~bl, 19),
        B(bl, 3),
        B(bl, 8) >>

PairRow(tgt, t, v, u, w) ==
  LET nat == NativeLanes(tgt, t)
      a == Abi(tgt, t, v, nat)
      b == Abi(tgt, u, w, nat)
      same == SameType(u, b, t, a)
      c == Implicit(tgt, u, b, t, a)       \* W -> V
      r == Implicit(tgt, t, a, u, b)       \* V -> W
      op == c \/ r
      res == IF same THEN 4 ELSE IF c THEN 2 ELSE IF r THEN 3 ELSE 0
      iop == (c /\ IsInt(t)) \/ (r /\ IsInt(u))
      n == SizeOf(tgt, u, b)
      eqn == SizeOf(tgt, t, a) = n
      mc == MaskImplicit(u, b, t, a)
      castable == u = t \/ Kind(tgt, t, n) # None
  IN << B(c, 3), B(c, 1), B(c, 1),
        B(op, 3), res, B(op, 3), res,
        B(iop, 3), B(iop, 3), B(c, 3),
        B(eqn, 3), B(eqn /\ ~Narrow(tgt, u, t), 3),
        IF castable THEN 1 + B(~Narrow(tgt, u, t), 2) ELSE Any,
        B(mc, 7),
        B(same, 3), B(same, 3), B(same, 3),
        B(mc, 1), B(mc, 3), B(mc, 1),
        0,
        B(same, 3) >>

OpsRow(tgt, t) ==
  LET i == IsInt(t) IN
  << 15, B(i, 255), B(i, 255), 15, 0, 14 + B(i, 1), 15, 15, 127, 255, 7, 0, 15, 15, 1, 21, B(i, 7), 0,
     15, 15, 145, Any, 0, 0, 0, 725, 1 >>

Expected(e) ==
  CASE e[1] = "scal" -> ScalRow(e[2], e[3], e[4])
    [] e[1] = "pair" -> PairRow(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "ops"  -> OpsRow(e[2], e[3])
(* positions at which a recorded row is not what the rules say *)
Mismatch(e) ==
  LET x == Expected(e)
      row == e[Len(e)]
  IN IF Len(row) # Len(x) THEN {1}
     ELSE {k \in 1..Len(x) : x[k] # Any /\ x[k] # row[k]}
=============================================================================
