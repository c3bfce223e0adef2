------------------------------- MODULE IEEE -------------------------------
(***************************************************************************)
(* IEEE-754 binary formats, specified relationally: a result word r is a   *)
(* correct rounding of an exact real x iff x lies between the midpoints    *)
(* to r's neighbours (ties only when r's significand is even).  The exact  *)
(* real is never materialised: callers supply a comparison CmpX(y) of x    *)
(* with an arbitrary non-negative dyadic y, so +,-,*,/,sqrt,fma and all    *)
(* conversions share one definition of "correctly rounded".                *)
(*                                                                         *)
(* A format is [w |-> storage bits, p |-> precision, emax |-> ...].        *)
(* f80 is the x87 extended format (explicit integer bit).                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigNat
LOCAL INSTANCE Words
LOCAL INSTANCE IOUtils

(* The rounding direction in force: to nearest even, up, down or towards     *)
(* zero.  A trace is validated under one direction.                          *)
RDir == IF "RDIR" \in DOMAIN IOEnv THEN IOEnv.RDIR ELSE "n"

F16 == [w |-> 16, p |-> 11, emax |-> 15,    ebits |-> 5,  x87 |-> FALSE]
F32 == [w |-> 32, p |-> 24, emax |-> 127,   ebits |-> 8,  x87 |-> FALSE]
F64 == [w |-> 64, p |-> 53, emax |-> 1023,  ebits |-> 11, x87 |-> FALSE]
F80 == [w |-> 80, p |-> 64, emax |-> 16383, ebits |-> 15, x87 |-> TRUE]
Fmt(t) == CASE t = "f32" -> F32 [] t = "f64" -> F64 [] t = "f80" -> F80

FracBits(f) == IF f.x87 THEN 64 ELSE f.p - 1
EMin(f) == 1 - f.emax                 \* exponent of the smallest normal
ETiny(f) == EMin(f) - (f.p - 1)       \* exponent of the smallest subnormal

SignBit(f, a) == IF WMsb(f.w, a) THEN 1 ELSE 0
BiasedExp(f, a) == BToInt(BMod2(BShr(BNorm(a), FracBits(f)), f.ebits))
Frac(f, a) == BMod2(BNorm(a), FracBits(f))

(* classification record: c \in {"nan","inf","zero","fin"}; for "fin" the   *)
(* value is (-1)^s * m * 2^e with e the exponent of r's unit in the last   *)
(* place.                                                                  *)
Dec(f, a) ==
   LET s == SignBit(f, a)
       be == BiasedExp(f, a)
       fr == Frac(f, a)
       mx == P2(f.ebits) - 1
   IN IF be = mx
      THEN IF (IF f.x87 THEN BMod2(fr, 63) ELSE fr) = <<>>
           THEN [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
           ELSE [c |-> "nan", s |-> s, m |-> <<>>, e |-> 0]
      ELSE IF be = 0
      THEN IF fr = <<>> THEN [c |-> "zero", s |-> s, m |-> <<>>, e |-> ETiny(f)]
           ELSE [c |-> "fin", s |-> s, m |-> fr, e |-> ETiny(f)]
      ELSE [c |-> "fin", s |-> s,
            m |-> IF f.x87 THEN fr ELSE BAdd(fr, BPow2(f.p - 1)),
            e |-> be - f.emax - (f.p - 1)]

IsNaN(f, a) == Dec(f, a).c = "nan"
IsInf(f, a) == Dec(f, a).c = "inf"
IsZero(f, a) == Dec(f, a).c = "zero"
IsFinite(f, a) == LET d == Dec(f, a) IN d.c \in {"zero", "fin"}
IsSubnormal(f, a) == LET d == Dec(f,a)
                     IN d.c = "fin" /\ BitLen(d.m) < f.p
IsNormal(f, a) == LET d == Dec(f,a) IN d.c = "fin" /\ BitLen(d.m) = f.p

-----------------------------------------------------------------------------
(* dyadics: non-negative [m, e] = m * 2^e                                  *)
Dy(m, e) == [m |-> m, e |-> e]
DyCmp(x, y) ==
   IF x.m = <<>> THEN (IF y.m = <<>> THEN 0 ELSE -1)
   ELSE IF y.m = <<>> THEN 1
   ELSE LET tx == BitLen(x.m) + x.e  ty == BitLen(y.m) + y.e
        IN IF tx # ty THEN (IF tx < ty THEN -1 ELSE 1)
           ELSE IF x.e >= y.e THEN BCmp(BShl(x.m, x.e - y.e), y.m)
                ELSE BCmp(x.m, BShl(y.m, y.e - x.e))
DyMul(x, y) == Dy(BMul(x.m, y.m), x.e + y.e)

(* signed exact sum of two signed dyadics [s,m,e].  When the exponents are *)
(* so far apart that the smaller operand cannot reach any rounding         *)
(* boundary of the larger, it is replaced by a tiny value of the same sign *)
(* (sound because rounding boundaries of formats with p <= 64 lie on a     *)
(* grid far coarser than 2^-200 relative to the larger operand).           *)
FarApart == 400
SDySum(x, y) ==
   IF x.m = <<>> THEN y ELSE IF y.m = <<>> THEN x
   ELSE
   LET big   == IF BitLen(x.m)+x.e >= BitLen(y.m)+y.e THEN x ELSE y
       small0 == IF BitLen(x.m)+x.e >= BitLen(y.m)+y.e THEN y ELSE x
       gap   == (BitLen(big.m)+big.e) - (BitLen(small0.m)+small0.e)
       small == IF gap > FarApart
                THEN [s |-> small0.s, m |-> <<1>>,
                      e |-> BitLen(big.m)+big.e - FarApart]
                ELSE small0
       e == IF big.e < small.e THEN big.e ELSE small.e
       mb == BShl(big.m, big.e - e)
       ms == BShl(small.m, small.e - e)
   IN IF big.s = small.s THEN [s |-> big.s, m |-> BAdd(mb, ms), e |-> e]
      ELSE LET c == BCmp(mb, ms)
           IN IF c = 0 THEN [s |-> 0, m |-> <<>>, e |-> e]
              ELSE IF c > 0 THEN [s |-> big.s, m |-> BSub(mb, ms), e |-> e]
              ELSE [s |-> small.s, m |-> BSub(ms, mb), e |-> e]

-----------------------------------------------------------------------------
(* r (decoded record d of format f) is the round-to-nearest-even of the    *)
(* NONZERO real of sign s whose magnitude is compared by CmpX(dyadic).     *)
RoundedRNE(f, s, CmpX(_), d) ==
   /\ d.c # "nan"
   /\ d.s = s
   /\ CASE d.c = "inf" ->
             CmpX(Dy(BSub(BPow2(f.p+1), <<1>>), f.emax - f.p)) >= 0
        [] d.c = "zero" -> CmpX(Dy(<<1>>, ETiny(f) - 1)) <= 0
        [] OTHER ->
             LET even == ~BOdd(d.m)
                 twoM == BShl(d.m, 1)
                 pow  == d.m = BPow2(f.p - 1) /\ d.e > ETiny(f)
                 hi == CmpX(Dy(BAdd(twoM, <<1>>), d.e - 1))
                 lo == IF pow THEN CmpX(Dy(BSub(BShl(d.m, 2), <<1>>), d.e - 2))
                       ELSE CmpX(Dy(BSub(twoM, <<1>>), d.e - 1))
             IN /\ hi < 0 \/ (hi = 0 /\ even)
                /\ lo > 0 \/ (lo = 0 /\ even)

(* the same for the directed roundings: the neighbour of x on the side the  *)
(* direction asks for (x itself when representable)                        *)
MaxFin(f) == Dy(BSub(BPow2(f.p), <<1>>), f.emax - f.p + 1)
RoundedDir(f, s, CmpX(_), d) ==
   LET away == (RDir = "u" /\ s = 0) \/ (RDir = "d" /\ s = 1)
       pow  == d.m = BPow2(f.p - 1) /\ d.e > ETiny(f)
   IN /\ d.c # "nan" /\ d.s = s
      /\ IF away
         THEN CASE d.c = "inf" -> CmpX(MaxFin(f)) > 0
                [] d.c = "zero" -> FALSE
                [] OTHER -> /\ CmpX(Dy(d.m, d.e)) <= 0
                            /\ IF pow THEN CmpX(Dy(BSub(BShl(d.m, 1), <<1>>), d.e - 1)) > 0
                               ELSE CmpX(Dy(BSub(d.m, <<1>>), d.e)) > 0
         ELSE CASE d.c = "inf" -> FALSE
                [] d.c = "zero" -> CmpX(Dy(<<1>>, ETiny(f))) < 0
                [] OTHER -> /\ CmpX(Dy(d.m, d.e)) >= 0
                            /\ \/ DyCmp(Dy(d.m, d.e), MaxFin(f)) = 0
                               \/ CmpX(Dy(BAdd(d.m, <<1>>), d.e)) < 0
Rounded(f, s, CmpX(_), d) == IF RDir = "n" THEN RoundedRNE(f, s, CmpX, d) ELSE RoundedDir(f, s, CmpX, d)
\* the sign of a sum that is exactly zero, of terms with signs s and t (not both
\* the same unless both terms are zeros of that sign)
ZeroSumSign(s, t) == IF s = t THEN s ELSE IF RDir = "d" THEN 1 ELSE 0

\* exact dyadic source x = [s,m,e] (nonzero)
RoundedDy(f, x, d) ==
   LET C(y) == DyCmp(Dy(x.m, x.e), y) IN Rounded(f, x.s, C, d)

-----------------------------------------------------------------------------
(* arithmetic; arguments and results are words                             *)
AddOKd(f, a, b, r) ==     \* decoded operands, decoded result
   CASE a.c = "nan" \/ b.c = "nan" -> r.c = "nan"
     [] a.c = "inf" /\ b.c = "inf" ->
           IF a.s = b.s THEN r.c = "inf" /\ r.s = a.s ELSE r.c = "nan"
     [] a.c = "inf" -> r.c = "inf" /\ r.s = a.s
     [] b.c = "inf" -> r.c = "inf" /\ r.s = b.s
     [] OTHER ->
        LET x == SDySum([s |-> a.s, m |-> a.m, e |-> a.e], [s |-> b.s, m |-> b.m, e |-> b.e])
        IN IF x.m = <<>>
           THEN r.c = "zero" /\ r.s = ZeroSumSign(a.s, b.s)
           ELSE RoundedDy(f, x, r)
Neg(d) == [d EXCEPT !.s = 1 - @]
AddOK(f, a, b, r) == AddOKd(f, Dec(f,a), Dec(f,b), Dec(f,r))
SubOK(f, a, b, r) == AddOKd(f, Dec(f,a), Neg(Dec(f,b)), Dec(f,r))

Xor1(s, t) == IF s = t THEN 0 ELSE 1
MulOKd(f, a, b, r) ==
   LET s == Xor1(a.s, b.s)
   IN CASE a.c = "nan" \/ b.c = "nan" -> r.c = "nan"
        [] (a.c = "inf" /\ b.c = "zero") \/ (a.c = "zero" /\ b.c = "inf") -> r.c = "nan"
        [] a.c = "inf" \/ b.c = "inf" -> r.c = "inf" /\ r.s = s
        [] a.c = "zero" \/ b.c = "zero" -> r.c = "zero" /\ r.s = s
        [] OTHER -> RoundedDy(f, [s |-> s, m |-> BMul(a.m, b.m), e |-> a.e + b.e], r)
MulOK(f, a, b, r) == MulOKd(f, Dec(f,a), Dec(f,b), Dec(f,r))

DivOKd(f, a, b, r) ==
   LET s == Xor1(a.s, b.s)
   IN CASE a.c = "nan" \/ b.c = "nan" -> r.c = "nan"
        [] (a.c = "inf" /\ b.c = "inf") \/ (a.c = "zero" /\ b.c = "zero") -> r.c = "nan"
        [] a.c = "inf" \/ b.c = "zero" -> r.c = "inf" /\ r.s = s
        [] a.c = "zero" \/ b.c = "inf" -> r.c = "zero" /\ r.s = s
        [] OTHER -> LET C(y) == DyCmp(Dy(a.m, a.e), DyMul(y, Dy(b.m, b.e)))
                    IN Rounded(f, s, C, r)
DivOK(f, a, b, r) == DivOKd(f, Dec(f,a), Dec(f,b), Dec(f,r))

SqrtOKd(f, a, r) ==
   CASE a.c = "nan" -> r.c = "nan"
     [] a.c = "zero" -> r.c = "zero" /\ r.s = a.s
     [] a.s = 1 -> r.c = "nan"
     [] a.c = "inf" -> r.c = "inf" /\ r.s = 0
     [] OTHER -> LET C(y) == DyCmp(Dy(a.m, a.e), DyMul(y, y))
                 IN Rounded(f, 0, C, r)
SqrtOK(f, a, r) == SqrtOKd(f, Dec(f,a), Dec(f,r))

FmaOKd(f, a, b, c, r) ==
   LET s == Xor1(a.s, b.s)
       pinf == (a.c = "inf" \/ b.c = "inf")
       pinv == (a.c = "inf" /\ b.c = "zero") \/ (a.c = "zero" /\ b.c = "inf")
   IN CASE a.c = "nan" \/ b.c = "nan" \/ c.c = "nan" \/ pinv -> r.c = "nan"
        [] pinf /\ c.c = "inf" /\ c.s # s -> r.c = "nan"
        [] pinf -> r.c = "inf" /\ r.s = s
        [] c.c = "inf" -> r.c = "inf" /\ r.s = c.s
        [] OTHER ->
           LET pr == [s |-> s, m |-> BMul(a.m, b.m), e |-> a.e + b.e]
               x == SDySum(pr, [s |-> c.s, m |-> c.m, e |-> c.e])
           IN IF x.m = <<>>
              THEN r.c = "zero" /\
                   r.s = ZeroSumSign(s, c.s)
              ELSE RoundedDy(f, x, r)
FmaOK(f, a, b, c, r) == FmaOKd(f, Dec(f,a), Dec(f,b), Dec(f,c), Dec(f,r))

-----------------------------------------------------------------------------
(* comparison predicates (quiet); unordered when either is NaN             *)
SCmp(a, b) ==     \* decoded non-NaN: -1/0/1
   IF a.c = "zero" /\ b.c = "zero" THEN 0
   ELSE IF a.c = "zero" THEN (IF b.s = 1 THEN 1 ELSE -1)
   ELSE IF b.c = "zero" THEN (IF a.s = 1 THEN -1 ELSE 1)
   ELSE IF a.s # b.s THEN (IF a.s = 1 THEN -1 ELSE 1)
   ELSE LET mag == IF a.c = "inf" THEN (IF b.c = "inf" THEN 0 ELSE 1)
                   ELSE IF b.c = "inf" THEN -1
                   ELSE DyCmp(Dy(a.m, a.e), Dy(b.m, b.e))
        IN IF a.s = 1 THEN 0 - mag ELSE mag
Unord(a, b) == a.c = "nan" \/ b.c = "nan"
Eq(a, b) == ~Unord(a,b) /\ SCmp(a,b) = 0
Lt(a, b) == ~Unord(a,b) /\ SCmp(a,b) < 0
Le(a, b) == ~Unord(a,b) /\ SCmp(a,b) <= 0

\* equality of results where any NaN stands for any NaN
SameFP(f, a, b) == \/ a = b
                   \/ Dec(f,a).c = "nan" /\ Dec(f,b).c = "nan"
-----------------------------------------------------------------------------
(* conversions                                                             *)
FToF(f, g, a, r) ==         \* f -> g
   LET d == Dec(f,a)  x == Dec(g,r)
   IN CASE d.c = "nan" -> x.c = "nan"
        [] d.c = "inf" -> x.c = "inf" /\ x.s = d.s
        [] d.c = "zero" -> x.c = "zero" /\ x.s = d.s
        [] OTHER -> RoundedDy(g, [s |-> d.s, m |-> d.m, e |-> d.e], x)

IToF(w, signed, g, a, r) ==
   LET neg == signed /\ WMsb(w, a)
       mag == BNorm(IF neg THEN WNeg(w, a) ELSE a)
       x == Dec(g, r)
   IN IF mag = <<>> THEN x.c = "zero" /\ (x.s = 0 \/ RDir = "d")
      ELSE RoundedDy(g, [s |-> IF neg THEN 1 ELSE 0, m |-> mag, e |-> 0], x)

\* truncated magnitude of a finite value as a BigNat
TruncMag(d) == IF d.e >= 0 THEN BShl(d.m, d.e) ELSE BShr(d.m, 0 - d.e)

\* does trunc(a) fit the integer type?  (otherwise conversion is undefined)
FFitsI(f, a, w, signed) ==
   LET d == Dec(f, a)
   IN /\ d.c \in {"zero", "fin"}
      /\ d.c = "fin" =>
           /\ BitLen(d.m) + d.e <= w
           /\ LET t == TruncMag(d)
              IN IF signed
                 THEN \/ BitLen(t) < w
                      \/ d.s = 1 /\ t = BPow2(w-1)
                 ELSE d.s = 0 \/ t = <<>>
FToI(f, a, w, r) ==
   LET d == Dec(f, a)
       t == WFit(w, TruncMag(d))
   IN r = (IF d.s = 1 THEN WNeg(w, t) ELSE t)
-----------------------------------------------------------------------------
(* rounding to integral values                                             *)
HasFrac(d) == d.e < 0 /\ BMod2(d.m, 0 - d.e) # <<>>
\* the integral magnitude selected by a rounding mode for |x|, sign s
IntegralMag(d, mode) ==
   IF d.e >= 0 THEN BShl(d.m, d.e)
   ELSE LET n == 0 - d.e
            t == BShr(d.m, n)
            fr == BMod2(d.m, n)
            halfc == BCmp(fr, BPow2(n-1))
            up == CASE mode = "trunc" -> FALSE
                    [] mode = "floor" -> fr # <<>> /\ d.s = 1
                    [] mode = "ceil"  -> fr # <<>> /\ d.s = 0
                    [] mode = "round" -> halfc >= 0
                    [] mode = "rint" /\ RDir = "n" -> halfc > 0 \/ (halfc = 0 /\ BOdd(t))
                    [] mode = "rint" /\ RDir = "u" -> fr # <<>> /\ d.s = 0
                    [] mode = "rint" /\ RDir = "d" -> fr # <<>> /\ d.s = 1
                    [] mode = "rint" /\ RDir = "z" -> FALSE
        IN IF up THEN BAdd(t, <<1>>) ELSE t
\* (large exponents are already integral: nothing to do)
RoundIntOK(f, mode, a, r) ==
   LET d == Dec(f, a)  x == Dec(f, r)
   IN CASE d.c = "nan" -> x.c = "nan"
        [] d.c \in {"inf", "zero"} -> r = a
        [] d.e >= 0 -> r = a
        [] OTHER ->
           LET t == IntegralMag(d, mode)
           IN /\ x.s = d.s
              /\ IF t = <<>> THEN x.c = "zero"
                 ELSE x.c = "fin" /\ DyCmp(Dy(t, 0), Dy(x.m, x.e)) = 0
-----------------------------------------------------------------------------
(* magnitude helpers used by the exact maths functions                     *)
WClrSign(f, a) == [a EXCEPT ![NL(f.w)] = @ % P2(TopBits(f.w) - 1)]
WSetSign(f, a, s) == LET c == WClrSign(f, a)
                     IN IF s = 1 THEN [c EXCEPT ![NL(f.w)] = @ + P2(TopBits(f.w) - 1)] ELSE c
\* unbiased exponent floor(log2 |x|) of a finite nonzero value
ILog2(d) == BitLen(d.m) + d.e - 1
\* total order key distance: number of representable steps between words
\* (both finite/inf, non-NaN), as signed BigNat pair -- returns BigNat
Ordinal(f, a) ==  \* [s, m]: signed magnitude order
   [s |-> SignBit(f, a), m |-> BNorm(WClrSign(f, a))]
UlpDist(f, a, b) ==
   LET x == Ordinal(f, a)  y == Ordinal(f, b)
   IN IF x.s = y.s
      THEN IF BCmp(x.m, y.m) >= 0 THEN BSub(x.m, y.m) ELSE BSub(y.m, x.m)
      ELSE BAdd(x.m, y.m)
=============================================================================
