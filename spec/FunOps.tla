------------------------------- MODULE FunOps -------------------------------
(***************************************************************************)
(* The approximating mathematical functions, lane-wise.  The functions     *)
(* themselves are uninterpreted: their graph is given by the scalar        *)
(* <cmath> call recorded next to each lane (x[n-1]; the lane is x[n]).     *)
(*  - functions evaluated by element-wise calls equal the scalar result;   *)
(*  - sin and cos are within TrigUlp ulp of it, or within one unit in the  *)
(*    last place of 1 where argument reduction cancels;                    *)
(*  - hypot needs no reference: |r| lies within HypotUlp ulp of the exact  *)
(*    root of the exact sum of squares;                                    *)
(*  - the special values of IEC 60559 Annex F hold exactly.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigNat
LOCAL INSTANCE Words
LOCAL INSTANCE IEEE

TrigUlp == 3
HypotUlp == 2

One == Dy(<<1>>, 0)
IsDy(d, s, v) == d.c = "fin" /\ d.s = s /\ DyCmp(Dy(d.m, d.e), v) = 0
IsZ(d, s) == d.c = "zero" /\ d.s = s
IsI(d, s) == d.c = "inf" /\ d.s = s
IsN(d) == d.c = "nan"
Mag1(d) == DyCmp(Dy(d.m, d.e), One)           \* |d| compared with 1
IsInt(d) == d.c = "zero" \/ (d.c = "fin" /\ (d.e >= 0 \/ BMod2(d.m, 0 - d.e) = <<>>))

\* odd functions that fix zero
FixZero == {"asin", "atan", "tan", "sin", "asinh", "atanh", "sinh", "tanh", "expm1", "log1p", "cbrt", "erf"}
OddFun == {"asin", "atan", "tan", "sin", "asinh", "atanh", "sinh", "tanh", "cbrt", "erf"}
\* special values of one-argument functions
Special1(op, x, r) ==
   /\ x.c = "nan" => IsN(r)
   /\ (x.c = "zero" /\ op \in FixZero) => IsZ(r, x.s)
   /\ (op \in OddFun /\ r.c # "nan" /\ x.c # "nan" /\ op \notin {"tan", "sin"}) => r.s = x.s
   /\ CASE op \in {"exp", "exp2"} ->
              /\ x.c = "zero" => IsDy(r, 0, One)
              /\ x.c = "inf" => IF x.s = 0 THEN IsI(r, 0) ELSE IsZ(r, 0)
              /\ r.c = "nan" \/ r.s = 0
        [] op = "expm1" -> x.c = "inf" => IF x.s = 0 THEN IsI(r, 0) ELSE IsDy(r, 1, One)
        [] op \in {"log", "log2", "log10"} ->
              /\ x.c = "zero" => IsI(r, 1)
              /\ (x.c \in {"fin", "inf"} /\ x.s = 1) => IsN(r)
              /\ x.c = "inf" /\ x.s = 0 => IsI(r, 0)
              /\ (x.c = "fin" /\ x.s = 0 /\ Mag1(x) = 0) => IsZ(r, 0)
        [] op = "log1p" ->
              /\ (x.c = "fin" /\ x.s = 1 /\ Mag1(x) = 0) => IsI(r, 1)
              /\ (x.c \in {"fin", "inf"} /\ x.s = 1 /\ (x.c = "inf" \/ Mag1(x) > 0)) => IsN(r)
              /\ (x.c = "inf" /\ x.s = 0) => IsI(r, 0)
        [] op \in {"sin", "cos", "tan"} -> x.c = "inf" => IsN(r)
        [] op \in {"asin", "acos"} ->
              /\ (x.c = "inf" \/ (x.c = "fin" /\ Mag1(x) > 0)) => IsN(r)
              /\ (op = "acos" /\ x.c = "fin" /\ x.s = 0 /\ Mag1(x) = 0) => IsZ(r, 0)
        [] op = "acosh" ->
              /\ (x.c = "zero" \/ (x.c # "nan" /\ x.s = 1) \/ (x.c = "fin" /\ Mag1(x) < 0)) => IsN(r)
              /\ (x.c = "fin" /\ x.s = 0 /\ Mag1(x) = 0) => IsZ(r, 0)
              /\ (x.c = "inf" /\ x.s = 0) => IsI(r, 0)
        [] op = "atanh" ->
              /\ (x.c = "inf" \/ (x.c = "fin" /\ Mag1(x) > 0)) => IsN(r)
              /\ (x.c = "fin" /\ Mag1(x) = 0) => IsI(r, x.s)
        [] op \in {"asinh", "sinh", "cbrt"} -> x.c = "inf" => IsI(r, x.s)
        [] op = "cosh" -> /\ x.c = "zero" => IsDy(r, 0, One)
                          /\ x.c = "inf" => IsI(r, 0)
        [] op \in {"tanh", "erf"} -> x.c = "inf" => IsDy(r, x.s, One)
        [] op = "erfc" -> x.c = "inf" => IF x.s = 0 THEN IsZ(r, 0) ELSE IsDy(r, 0, Dy(<<1>>, 1))
        [] op = "lgamma" ->
              /\ x.c \in {"inf", "zero"} => IsI(r, 0)
              /\ (x.c = "fin" /\ x.s = 0 /\ (Mag1(x) = 0 \/ IsDy(x, 0, Dy(<<1>>, 1)))) => IsZ(r, 0)
        [] op = "tgamma" ->
              /\ x.c = "zero" => IsI(r, x.s)
              /\ x.c = "inf" => IF x.s = 0 THEN IsI(r, 0) ELSE IsN(r)
              /\ (x.c = "fin" /\ x.s = 1 /\ IsInt(x)) => IsN(r)
        [] OTHER -> TRUE
Special2(op, x, y, r) ==
   CASE op = "pow" ->
          IF y.c = "zero" \/ (x.c = "fin" /\ x.s = 0 /\ Mag1(x) = 0) THEN IsDy(r, 0, One)
          ELSE /\ (x.c = "nan" \/ y.c = "nan") => IsN(r)
               /\ (x.c = "fin" /\ x.s = 1 /\ y.c = "fin" /\ ~IsInt(y)) => IsN(r)
               /\ (x.c = "zero" /\ y.c \in {"fin", "inf"}) => r.c = (IF y.s = 0 THEN "zero" ELSE "inf")
               /\ (x.c \in {"fin", "inf"} /\ x.s = 0 /\ y.c # "nan") => r.s = 0
     [] op = "atan2" ->
          IF x.c = "nan" \/ y.c = "nan" THEN IsN(r)
          ELSE /\ r.s = x.s
               /\ (x.c = "zero" /\ y.s = 0) => IsZ(r, x.s)
     [] OTHER -> TRUE

\* |r - v| <= k units of v's last place, or <= one unit in the last place of 1
Near(f, v, r, k) ==
   /\ r.c \in {"zero", "fin"}
   /\ LET diff == SDySum([s |-> r.s, m |-> r.m, e |-> r.e], [s |-> 1 - v.s, m |-> v.m, e |-> v.e])
          d == Dy(diff.m, diff.e)
      IN \/ DyCmp(d, Dy(BNat(k), v.e)) <= 0
         \/ DyCmp(d, Dy(<<1>>, 1 - f.p)) <= 0
TrigOK(f, op, x, v, r) ==
   /\ Special1(op, x, r)
   /\ (op = "cos" /\ x.c = "zero") => IsDy(r, 0, One)
   /\ x.c \in {"zero", "fin"} => Near(f, v, r, TrigUlp)

-----------------------------------------------------------------------------
(* hypot: sum of squares, exact except that addends 2^-200 below the       *)
(* largest are replaced by something at least as small (see SDySum)        *)
Sq(d) == [s |-> 0, m |-> BMul(d.m, d.m), e |-> 2 * d.e]
SumSq(ds) == IF Len(ds) = 2 THEN SDySum(Sq(ds[1]), Sq(ds[2]))
             ELSE SDySum(SDySum(Sq(ds[1]), Sq(ds[2])), Sq(ds[3]))
HypotOK(f, ds, r) ==
   CASE \E i \in DOMAIN ds : ds[i].c = "inf" -> IsI(r, 0)
     [] \E i \in DOMAIN ds : ds[i].c = "nan" -> IsN(r)
     [] \A i \in DOMAIN ds : ds[i].c = "zero" -> IsZ(r, 0)
     [] Len(ds) = 2 /\ \E i \in DOMAIN ds : ds[i].c = "zero" ->
           \E i \in DOMAIN ds : ds[i].c = "fin" /\ IsDy(r, 0, Dy(ds[i].m, ds[i].e))
     [] OTHER ->
        LET S == SumSq(ds)
            s == Dy(S.m, S.e)
            k == BNat(HypotUlp)
            max == BSub(BPow2(f.p), <<1>>)              \* largest significand
            big == Dy(BSub(max, k), f.emax - (f.p - 1))
        IN CASE r.c = "inf" -> r.s = 0 /\ DyCmp(s, DyMul(big, big)) >= 0
             [] r.c = "zero" -> FALSE
             [] r.c = "fin" ->
                  LET up == Dy(BAdd(r.m, k), r.e)
                      dn == IF BCmp(r.m, k) <= 0 THEN Dy(<<>>, r.e) ELSE Dy(BSub(r.m, k), r.e)
                  IN /\ r.s = 0
                     /\ DyCmp(DyMul(up, up), s) >= 0
                     /\ DyCmp(DyMul(dn, dn), s) <= 0
             [] OTHER -> FALSE

-----------------------------------------------------------------------------
Fun1 == {"acos", "asin", "atan", "tan", "acosh", "asinh", "atanh", "cosh", "sinh", "tanh", "exp",
         "exp2", "expm1", "log", "log10", "log1p", "log2", "cbrt", "erf", "erfc", "lgamma", "tgamma"}
Fun2 == {"pow", "atan2"}
\* functions of <cmath> with no special values of interest (integer or real arguments)
FunOther == {"beta", "comp_ellint_1", "comp_ellint_2", "comp_ellint_3", "cyl_bessel_i", "cyl_bessel_j",
             "cyl_bessel_k", "cyl_neumann", "ellint_1", "ellint_2", "ellint_3", "expint", "riemann_zeta",
             "hermite", "laguerre", "legendre", "sph_bessel", "sph_neumann", "assoc_laguerre",
             "assoc_legendre", "sph_legendre"}
FunOpNames == Fun1 \union Fun2 \union FunOther \union {"sin", "cos", "hypot", "hypot3"}
FunOK(op, t, x) ==
   LET f == Fmt(t)
       n == Len(x)
       r == Dec(f, x[n])
   IN CASE op \in Fun1 -> SameFP(f, x[n-1], x[n]) /\ Special1(op, Dec(f, x[1]), r)
        [] op \in Fun2 -> SameFP(f, x[n-1], x[n]) /\ Special2(op, Dec(f, x[1]), Dec(f, x[2]), r)
        [] op \in FunOther -> SameFP(f, x[n-1], x[n])
        [] op \in {"sin", "cos"} -> TrigOK(f, op, Dec(f, x[1]), Dec(f, x[2]), r)
        [] op = "hypot" -> HypotOK(f, <<Dec(f, x[1]), Dec(f, x[2])>>, r)
        [] op = "hypot3" -> HypotOK(f, <<Dec(f, x[1]), Dec(f, x[2]), Dec(f, x[3])>>, r)
=============================================================================
