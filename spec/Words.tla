------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width machine words.  A w-bit word is a sequence of exactly       *)
(* NL(w) 12-bit limbs (least significant first), the representation the    *)
(* trace recorder writes.  Arithmetic is modulo 2^w; the signed reading is *)
(* two's complement.                                                       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE BigNat

NL(w) == (w + 11) \div 12
TopBits(w) == w - 12*(NL(w)-1)

WZero(w) == [i \in 1..NL(w) |-> 0]
WIsWord(w, a) == /\ Len(a) = NL(w)
                 /\ \A i \in 1..Len(a) : a[i] \in 0..4095
                 /\ a[NL(w)] < P2(TopBits(w))

\* any limb sequence -> w-bit word (mod 2^w)
WFit(w, a) == [i \in 1..NL(w) |->
                 IF i < NL(w) THEN BLim(a, i) ELSE BLim(a, i) % P2(TopBits(w))]
WOnes(w) == [i \in 1..NL(w) |-> IF i < NL(w) THEN 4095 ELSE P2(TopBits(w)) - 1]

WNat(w, n) == WFit(w, BNat(n))             \* small natural
ToNat(a) == BNorm(a)                       \* word -> BigNat

WNot(w, a) == [i \in 1..NL(w) |-> (IF i < NL(w) THEN 4095 ELSE P2(TopBits(w)) - 1) - a[i]]
WAnd(a, b) == [i \in DOMAIN a |-> a[i] & b[i]]
WOr(a, b)  == [i \in DOMAIN a |-> a[i] | b[i]]
WXor(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]

WAdd(w, a, b) == WFit(w, BAdd(a, b))
WInc(w, a) == WFit(w, BAdd(a, <<1>>))
WNeg(w, a) == WInc(w, WNot(w, a))
WSub(w, a, b) == WAdd(w, a, WNeg(w, b))
RECURSIVE WMulAcc(_,_,_,_,_,_)
WMulAcc(a, b, k, n, c, acc) ==
   IF k > n THEN acc
   ELSE LET s == c + BColSum(a, b, k, 1, k)
        IN WMulAcc(a, b, k+1, n, s \div 4096, Append(acc, s % 4096))
WMul(w, a, b) == WFit(w, WMulAcc(a, b, 1, NL(w), 0, <<>>))

WMsb(w, a) == a[NL(w)] >= P2(TopBits(w) - 1)   \* sign bit
WBit(a, n) == (a[(n \div 12) + 1] \div P2(n % 12)) % 2

\* magnitude of the signed reading
WAbs(w, a) == IF WMsb(w, a) THEN WNeg(w, a) ELSE a

\* comparison, unsigned / signed: -1, 0, 1
WCmpU(a, b) == BCmpFrom(a, b, Len(a))
WCmpS(w, a, b) == LET na == WMsb(w, a)  nb == WMsb(w, b)
                  IN IF na # nb THEN (IF na THEN -1 ELSE 1) ELSE WCmpU(a, b)

WShl(w, a, n) == IF n >= w THEN WZero(w) ELSE WFit(w, BShl(a, n))
WShrU(w, a, n) == IF n >= w THEN WZero(w) ELSE WFit(w, BShr(a, n))
WShrS(w, a, n) == IF ~WMsb(w, a) THEN WShrU(w, a, n)
                  ELSE WNot(w, WShrU(w, WNot(w, a), n))

\* sign/zero extension or truncation between widths
WResize(wf, wt, a, signed) ==
   IF wt <= wf \/ ~(signed /\ WMsb(wf, a)) THEN WFit(wt, a)
   ELSE WNot(wt, WFit(wt, WNot(wf, a)))

\* x = q*y + r, decided relationally (no long division needed):
\* UDivOK(w,x,y,q): q = floor(x/y);  y # 0
WUDivOK(x, y, q) ==
   LET xn == BNorm(x)  yn == BNorm(y)  p == BMul(BNorm(q), yn)
   IN BCmp(p, xn) <= 0 /\ BCmp(BSub(xn, p), yn) < 0
WURemOK(x, y, q, r) ==     \* r the remainder for the quotient witness q
   LET xn == BNorm(x)  p == BMul(BNorm(q), BNorm(y))
   IN BCmp(p, xn) <= 0 /\ BSub(xn, p) = BNorm(r) /\ BCmp(BNorm(r), BNorm(y)) < 0
=============================================================================
