------------------------------ MODULE MathOps ------------------------------
(***************************************************************************)
(* The exactly specified mathematical functions, lane-wise.  Results are   *)
(* characterised relationally on the decoded IEEE operands; nothing here   *)
(* is taken from the library or from libm.                                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigNat
LOCAL INSTANCE Words
LOCAL INSTANCE IEEE

\* small signed value of a word, saturated to +-200000 (exponent arguments)
SatInt(w, a) ==
   LET neg == WMsb(w, a)
       m == BNorm(IF neg THEN WNeg(w, a) ELSE a)
       v == IF BitLen(m) > 17 THEN 200000 ELSE BToInt(m)
   IN IF neg THEN 0 - v ELSE v
\* the word of a small signed integer
IntWord(w, n) == IF n >= 0 THEN WNat(w, n) ELSE WNeg(w, WNat(w, 0 - n))
IntMinWord == WNeg(32, WFit(32, BPow2(31)))
IntMaxWord == WFit(32, BSub(BPow2(31), <<1>>))

-----------------------------------------------------------------------------
(* modular reduction (long division by shift and subtract)                 *)
RECURSIVE BModAcc(_,_,_)
BModAcc(a, M, k) == LET s == BShl(M, k)
                        b == IF BCmp(a, s) >= 0 THEN BSub(a, s) ELSE a
                    IN IF k = 0 THEN b ELSE BModAcc(b, M, k - 1)
BMod(a, M) == IF BCmp(a, M) < 0 THEN a ELSE BModAcc(a, M, BitLen(a) - BitLen(M))
RECURSIVE Pow2Mod(_,_)
Pow2Mod(k, M) == IF k <= 96 THEN BMod(BPow2(k), M)
                 ELSE LET h == Pow2Mod(k \div 2, M)
                          q == BMul(h, h)
                      IN BMod(IF k % 2 = 1 THEN BShl(q, 1) ELSE q, M)
ShlMod(m, k, M) == IF k <= 96 THEN BMod(BShl(m, k), M) ELSE BMod(BMul(BMod(m, M), Pow2Mod(k, M)), M)
RECURSIVE SmallQuot(_,_,_)
SmallQuot(a, b, n) == IF n = 0 \/ BCmp(a, b) < 0 THEN [q |-> 0, r |-> a]
                      ELSE LET z == SmallQuot(BSub(a, b), b, n - 1) IN [q |-> z.q + 1, r |-> z.r]
\* |x| = n*|y| + rem with 0 <= rem < |y|:  n mod 8 and rem (a dyadic)
DivMod(x, y) ==
   IF BitLen(x.m) + x.e < BitLen(y.m) + y.e
   THEN [q |-> 0, r |-> Dy(x.m, x.e)]
   ELSE LET e == IF x.e < y.e THEN x.e ELSE y.e
            Y == BShl(y.m, y.e - e)
            R == ShlMod(x.m, x.e - e, BShl(Y, 3))
            z == SmallQuot(R, Y, 8)
        IN [q |-> z.q, r |-> Dy(z.r, e)]
\* the value of d equals the dyadic v with sign s (v zero: zero of sign s)
IsVal(d, s, v) == IF v.m = <<>> THEN d.c = "zero" /\ d.s = s
                  ELSE d.c = "fin" /\ d.s = s /\ DyCmp(Dy(d.m, d.e), v) = 0
FmodOK(f, a, b, r) ==
   LET x == Dec(f, a)  y == Dec(f, b)  d == Dec(f, r)
   IN CASE x.c = "nan" \/ y.c = "nan" \/ x.c = "inf" \/ y.c = "zero" -> d.c = "nan"
        [] y.c = "inf" \/ x.c = "zero" -> r = a
        [] OTHER -> IsVal(d, x.s, DivMod(x, y).r)
\* IEEE remainder: n is x/y rounded to nearest, ties to even
RemDiv(x, y) ==
   LET z == DivMod(x, y)
       twice == Dy(z.r.m, z.r.e + 1)
       c == DyCmp(twice, Dy(y.m, y.e))
   IN IF c > 0 \/ (c = 0 /\ z.q % 2 = 1)
      THEN LET s == SDySum([s |-> 0, m |-> y.m, e |-> y.e], [s |-> 1, m |-> z.r.m, e |-> z.r.e])
           IN [q |-> (z.q + 1) % 8, flip |-> TRUE, up |-> TRUE, r |-> Dy(s.m, s.e)]
      ELSE [q |-> z.q, flip |-> FALSE, up |-> FALSE, r |-> z.r]
RemainderOK(f, a, b, r) ==
   LET x == Dec(f, a)  y == Dec(f, b)  d == Dec(f, r)
   IN CASE x.c = "nan" \/ y.c = "nan" \/ x.c = "inf" \/ y.c = "zero" -> d.c = "nan"
        [] y.c = "inf" \/ x.c = "zero" -> r = a
        [] OTHER -> LET z == RemDiv(x, y)
                    IN IsVal(d, IF z.r.m = <<>> THEN x.s ELSE IF z.flip THEN 1 - x.s ELSE x.s, z.r)
RemquoOK(f, a, b, r, q) ==
   LET x == Dec(f, a)  y == Dec(f, b)
   IN /\ RemainderOK(f, a, b, r)
      /\ (x.c = "fin" /\ y.c = "fin") =>
           LET z == RemDiv(x, y)
               mag == BNorm(WAbs(32, q))
           IN /\ BToInt(BMod2(mag, 3)) = z.q
              /\ mag # <<>> => (WMsb(32, q) <=> x.s # y.s)
              \* a zero quotient magnitude only when n is a multiple of 8
      /\ (x.c = "zero" /\ y.c \in {"fin", "inf"}) \/ (x.c = "fin" /\ y.c = "inf") => BNorm(q) = <<>>

NextafterOK(f, a, b, r) ==
   LET x == Dec(f, a)  y == Dec(f, b)
   IN IF x.c = "nan" \/ y.c = "nan" THEN Dec(f, r).c = "nan"
      ELSE LET c == SCmp(x, y)
           IN IF c = 0 THEN r = b
              ELSE IF x.c = "zero" THEN r = WSetSign(f, WNat(f.w, 1), y.s)
              \* toward larger magnitude iff moving away from zero
              ELSE IF (c < 0) = (x.s = 0) THEN r = WInc(f.w, a)
              ELSE r = WSub(f.w, a, WNat(f.w, 1))

FdimOK(f, a, b, r) ==
   LET x == Dec(f, a)  y == Dec(f, b)
   IN IF x.c = "nan" \/ y.c = "nan" THEN Dec(f, r).c = "nan"
      ELSE IF SCmp(x, y) > 0 THEN SubOK(f, a, b, r)
      ELSE r = WZero(f.w)

FminmaxOK(f, a, b, r, ismin) ==
   LET x == Dec(f, a)  y == Dec(f, b)
   IN IF x.c = "nan" THEN SameFP(f, b, r)
      ELSE IF y.c = "nan" THEN SameFP(f, a, r)
      ELSE LET c == SCmp(x, y)
           IN IF c = 0 THEN r \in {a, b}
              ELSE r = (IF (c < 0) = ismin THEN a ELSE b)

LdexpOK(f, a, n, r) ==
   LET x == Dec(f, a)  d == Dec(f, r)
   IN CASE x.c = "nan" -> d.c = "nan"
        [] x.c \in {"inf", "zero"} -> r = a
        [] OTHER -> RoundedDy(f, [s |-> x.s, m |-> x.m, e |-> x.e + SatInt(32, n)], d)

\* 0.5 <= |m| < 1, x = m * 2^e exactly
FrexpOK(f, a, m, e) ==
   LET x == Dec(f, a)  d == Dec(f, m)
   IN CASE x.c = "nan" -> d.c = "nan"
        [] x.c = "inf" -> m = a
        [] x.c = "zero" -> m = a /\ e = WZero(32)
        [] OTHER -> /\ d.c = "fin" /\ d.s = x.s
                    /\ BitLen(d.m) + d.e = 0
                    /\ DyCmp(Dy(d.m, d.e + SatInt(32, e)), Dy(x.m, x.e)) = 0

ModfOK(f, a, ip, fr) ==
   LET x == Dec(f, a)  i == Dec(f, ip)  d == Dec(f, fr)
   IN CASE x.c = "nan" -> i.c = "nan" /\ d.c = "nan"
        [] x.c = "inf" -> ip = a /\ d.c = "zero" /\ d.s = x.s
        [] OTHER -> /\ RoundIntOK(f, "trunc", a, ip)
                    /\ IF x.c = "zero" \/ x.e >= 0 THEN d.c = "zero" /\ d.s = x.s
                       ELSE IsVal(d, x.s, Dy(BMod2(x.m, 0 - x.e), x.e))

LogbOK(f, a, r) ==
   LET x == Dec(f, a)  d == Dec(f, r)
   IN CASE x.c = "nan" -> d.c = "nan"
        [] x.c = "inf" -> d.c = "inf" /\ d.s = 0
        [] x.c = "zero" -> d.c = "inf" /\ d.s = 1
        [] OTHER -> IToF(32, TRUE, f, IntWord(32, ILog2(x)), r)
IlogbOK(f, a, r) ==
   LET x == Dec(f, a)
   IN CASE x.c \in {"nan", "zero"} -> r = IntMinWord      \* FP_ILOGBNAN = FP_ILOGB0
        [] x.c = "inf" -> r = IntMaxWord
        [] OTHER -> r = IntWord(32, ILog2(x))

ToIntOK(f, mode, a, r) ==          \* lround & co; the value fits
   LET d == Dec(f, a)
   IN \/ d.c \notin {"zero", "fin"}
      \/ IF d.c = "zero" THEN r = WZero(64)
         ELSE IF BitLen(d.m) + d.e > 64 THEN TRUE
         ELSE LET t == IntegralMag(d, mode)
              IN IF BitLen(t) > 63 THEN TRUE
                 ELSE r = (IF d.s = 1 THEN WNeg(64, WFit(64, t)) ELSE WFit(64, t))

ClassNo(f, a) == LET d == Dec(f, a)
                 IN CASE d.c = "nan" -> 0 [] d.c = "inf" -> 1 [] d.c = "zero" -> 2
                      [] BitLen(d.m) < f.p -> 3 [] OTHER -> 4
T01(p) == IF p THEN 1 ELSE 0
Modes == [trunc |-> "trunc", floor |-> "floor", ceil |-> "ceil", round |-> "round",
          rint |-> "rint", nearbyint |-> "rint"]
IModes == [lrint |-> "rint", llrint |-> "rint", lround |-> "round", llround |-> "round"]
MathOpNames == DOMAIN Modes \union DOMAIN IModes \union
   {"sqrt", "abs", "fabs", "logb", "ilogb", "fpclassify", "isfinite", "isinf", "isnan", "isnormal",
    "signbit", "copysign", "fmod", "remainder", "nextafter", "fdim", "fmin", "fmax", "isgreater",
    "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered", "ldexp", "frexp",
    "modf", "remquo", "fma", "iabs"}
MFmt(t) == Fmt(t)
IWidth == [i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64]
MathOK(op, t, x) ==
   IF op = "iabs" THEN x[2] = WAbs(IWidth[t], x[1])
   ELSE LET f == MFmt(t)
   IN CASE op = "sqrt" -> SqrtOK(f, x[1], x[2])
        [] op \in {"abs", "fabs"} -> SameFP(f, WClrSign(f, x[1]), x[2])
        [] op \in DOMAIN Modes -> RoundIntOK(f, Modes[op], x[1], x[2])
        [] op \in DOMAIN IModes -> ToIntOK(f, IModes[op], x[1], x[2])
        [] op = "logb" -> LogbOK(f, x[1], x[2])
        [] op = "ilogb" -> IlogbOK(f, x[1], x[2])
        [] op = "fpclassify" -> x[2] = ClassNo(f, x[1])
        [] op = "isfinite" -> x[2] = T01(ClassNo(f, x[1]) >= 2)
        [] op = "isinf" -> x[2] = T01(ClassNo(f, x[1]) = 1)
        [] op = "isnan" -> x[2] = T01(ClassNo(f, x[1]) = 0)
        [] op = "isnormal" -> x[2] = T01(ClassNo(f, x[1]) = 4)
        [] op = "signbit" -> x[2] = SignBit(f, x[1])
        [] op = "copysign" -> SameFP(f, WSetSign(f, x[1], SignBit(f, x[2])), x[3])
        [] op = "fmod" -> FmodOK(f, x[1], x[2], x[3])
        [] op = "remainder" -> RemainderOK(f, x[1], x[2], x[3])
        [] op = "nextafter" -> NextafterOK(f, x[1], x[2], x[3])
        [] op = "fdim" -> FdimOK(f, x[1], x[2], x[3])
        [] op = "fmin" -> FminmaxOK(f, x[1], x[2], x[3], TRUE)
        [] op = "fmax" -> FminmaxOK(f, x[1], x[2], x[3], FALSE)
        [] op = "isgreater" -> x[3] = T01(Lt(Dec(f, x[2]), Dec(f, x[1])))
        [] op = "isgreaterequal" -> x[3] = T01(Le(Dec(f, x[2]), Dec(f, x[1])))
        [] op = "isless" -> x[3] = T01(Lt(Dec(f, x[1]), Dec(f, x[2])))
        [] op = "islessequal" -> x[3] = T01(Le(Dec(f, x[1]), Dec(f, x[2])))
        [] op = "islessgreater" -> x[3] = T01(~Unord(Dec(f, x[1]), Dec(f, x[2])) /\ ~Eq(Dec(f, x[1]), Dec(f, x[2])))
        [] op = "isunordered" -> x[3] = T01(Unord(Dec(f, x[1]), Dec(f, x[2])))
        [] op = "ldexp" -> LdexpOK(f, x[1], x[2], x[3])
        [] op = "frexp" -> FrexpOK(f, x[1], x[2], x[3])
        [] op = "modf" -> ModfOK(f, x[1], x[2], x[3])
        [] op = "remquo" -> RemquoOK(f, x[1], x[2], x[3], x[4])
        [] op = "fma" -> FmaOK(f, x[1], x[2], x[3], x[4])
=============================================================================
