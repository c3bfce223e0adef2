------------------------------ MODULE BigNat ------------------------------
(***************************************************************************)
(* Unbounded natural numbers as little-endian sequences of base-4096       *)
(* limbs (TLC integers are 32-bit Java ints, so 12-bit limbs keep every    *)
(* intermediate product and column sum in range).  A normalised number has *)
(* no leading (= last) zero limb; zero is <<>>.                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Base == 4096
LimbBits == 12

P2tab == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
           131072,262144,524288,1048576,2097152,4194304,8388608,16777216>>
P2(n) == P2tab[n+1]

RECURSIVE BNorm(_)
BNorm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0
            THEN BNorm(SubSeq(a, 1, Len(a)-1)) ELSE a

BIsZero(a) == \A i \in DOMAIN a : a[i] = 0

\* small (TLC-int) natural -> BigNat
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BNat(n \div Base)

BLim(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

-----------------------------------------------------------------------------
\* comparison of normalised naturals: -1, 0, 1
RECURSIVE BCmpFrom(_,_,_)
BCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] = b[i] THEN BCmpFrom(a, b, i-1)
                     ELSE IF a[i] < b[i] THEN -1 ELSE 1
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE BCmpFrom(a, b, Len(a))

-----------------------------------------------------------------------------
RECURSIVE BAddAcc(_,_,_,_,_,_)
BAddAcc(a, b, i, n, c, acc) ==
   IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
   ELSE LET s == BLim(a,i) + BLim(b,i) + c
        IN BAddAcc(a, b, i+1, n, s \div Base, Append(acc, s % Base))
BAdd(a, b) == BAddAcc(a, b, 1, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b), 0, <<>>)

\* a - b, for a >= b
RECURSIVE BSubAcc(_,_,_,_,_)
BSubAcc(a, b, i, c, acc) ==
   IF i > Len(a) THEN acc
   ELSE LET s == a[i] - BLim(b,i) - c
        IN BSubAcc(a, b, i+1, IF s < 0 THEN 1 ELSE 0,
                   Append(acc, IF s < 0 THEN s + Base ELSE s))
BSub(a, b) == BNorm(BSubAcc(a, b, 1, 0, <<>>))

RECURSIVE BColSum(_,_,_,_,_)
BColSum(a, b, k, i, hi) == IF i > hi THEN 0
                           ELSE a[i]*b[k+1-i] + BColSum(a, b, k, i+1, hi)
RECURSIVE BMulAcc(_,_,_,_,_,_)
BMulAcc(a, b, k, n, c, acc) ==
   IF k > n THEN acc
   ELSE LET lo == IF k > Len(b) THEN k + 1 - Len(b) ELSE 1
            hi == IF k > Len(a) THEN Len(a) ELSE k
            s  == c + BColSum(a, b, k, lo, hi)
        IN BMulAcc(a, b, k+1, n, s \div Base, Append(acc, s % Base))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BNorm(BMulAcc(a, b, 1, Len(a)+Len(b), 0, <<>>))

-----------------------------------------------------------------------------
RECURSIVE BitsOf(_,_)
BitsOf(x, n) == IF x = 0 THEN n ELSE BitsOf(x \div 2, n+1)
BitLen(a) == IF a = <<>> THEN 0 ELSE LimbBits*(Len(a)-1) + BitsOf(a[Len(a)], 0)

Zeros(n) == [i \in 1..n |-> 0]

RECURSIVE BShlAcc(_,_,_,_,_)
BShlAcc(a, f, i, c, acc) ==
   IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
   ELSE LET s == a[i]*f + c IN BShlAcc(a, f, i+1, s \div Base, Append(acc, s % Base))
\* a * 2^n
BShl(a, n) == IF a = <<>> \/ n = 0 THEN a
              ELSE BShlAcc(a, P2(n % LimbBits), 1, 0, Zeros(n \div LimbBits))

\* floor(a / 2^n)
BShr(a, n) ==
   LET q == n \div LimbBits  r == n % LimbBits
   IN IF n = 0 THEN a
      ELSE IF q >= Len(a) THEN <<>>
      ELSE LET d == P2(r)  u == P2(LimbBits - r)
               res == [i \in 1..(Len(a)-q) |->
                         (a[i+q] \div d) + (BLim(a, i+q+1) % d) * u]
           IN BNorm(res)

\* a mod 2^n
BMod2(a, n) ==
   LET q == n \div LimbBits  r == n % LimbBits
   IN IF Len(a) <= q THEN a
      ELSE BNorm(SubSeq(a, 1, q) \o <<a[q+1] % P2(r)>>)

BOdd(a) == a # <<>> /\ a[1] % 2 = 1
BTestBit(a, n) == (BLim(a, (n \div LimbBits) + 1) \div P2(n % LimbBits)) % 2 = 1
BPow2(n) == BShl(<<1>>, n)

\* BigNat -> TLC int, for values known to be small
RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + Base*BToInt(Tail(a))

RECURSIVE BTrailAcc(_,_)
BTrailAcc(a, n) == IF BTestBit(a, n) THEN n ELSE BTrailAcc(a, n+1)
BTrailingZeros(a) == BTrailAcc(a, 0)
=============================================================================
