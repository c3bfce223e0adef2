------------------------------ MODULE LaneOps ------------------------------
(***************************************************************************)
(* The element-wise semantics of the library: for every operation, the     *)
(* relation between the operand lanes and the result lane.  A lane value   *)
(* is a word (bit pattern); bool lanes are 0/1.  The operators below are   *)
(* the transition relation of one lane; Simd.tla lifts them to registers.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE BigNat
LOCAL INSTANCE Words
LOCAL INSTANCE IEEE

IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
FloatTypes == {"f32", "f64", "f80"}
TypeTab == [i8  |-> [w |-> 8,  s |-> TRUE],  u8  |-> [w |-> 8,  s |-> FALSE],
            i16 |-> [w |-> 16, s |-> TRUE],  u16 |-> [w |-> 16, s |-> FALSE],
            i32 |-> [w |-> 32, s |-> TRUE],  u32 |-> [w |-> 32, s |-> FALSE],
            i64 |-> [w |-> 64, s |-> TRUE],  u64 |-> [w |-> 64, s |-> FALSE],
            f32 |-> [w |-> 32, s |-> TRUE],  f64 |-> [w |-> 64, s |-> TRUE],
            f80 |-> [w |-> 80, s |-> TRUE]]
IsF(t) == t \in FloatTypes
Wd(t) == TypeTab[t].w
Sg(t) == TypeTab[t].s
IsBool(x) == x \in 0..1

One(t) == CASE t = "f32" -> <<0, 2048, 63>>
            [] t = "f64" -> <<0, 0, 0, 0, 4080, 3>>
            [] t = "f80" -> <<0, 0, 0, 0, 0, 4088, 63>>
            [] OTHER -> WNat(Wd(t), 1)

-----------------------------------------------------------------------------
(* arithmetic                                                              *)
AddR(t, a, b, r) == IF IsF(t) THEN AddOK(Fmt(t), a, b, r) ELSE r = WAdd(Wd(t), a, b)
SubR(t, a, b, r) == IF IsF(t) THEN SubOK(Fmt(t), a, b, r) ELSE r = WSub(Wd(t), a, b)
MulR(t, a, b, r) == IF IsF(t) THEN MulOK(Fmt(t), a, b, r) ELSE r = WMul(Wd(t), a, b)
\* integer quotient truncated towards zero
IDivR(w, s, a, b, r) ==
   IF ~s THEN WUDivOK(a, b, r)
   ELSE LET neg == WMsb(w, a) # WMsb(w, b)
            q == IF neg THEN WNeg(w, r) ELSE r      \* magnitude of the quotient
        IN WUDivOK(WAbs(w, a), WAbs(w, b), q)
DivR(t, a, b, r) == IF IsF(t) THEN DivOK(Fmt(t), a, b, r) ELSE IDivR(Wd(t), Sg(t), a, b, r)
\* remainder has the sign of the dividend; q is a witness for the quotient
RemR(t, a, b, q, r) ==
   LET w == Wd(t)
   IN IF ~Sg(t) THEN WURemOK(a, b, q, r)
      ELSE WURemOK(WAbs(w, a), WAbs(w, b),
                   IF WMsb(w, a) # WMsb(w, b) THEN WNeg(w, q) ELSE q,
                   IF WMsb(w, a) THEN WNeg(w, r) ELSE r)
NegR(t, a, r) == IF IsF(t)
                 THEN SameFP(Fmt(t), WSetSign(Fmt(t), a, 1 - SignBit(Fmt(t), a)), r)
                 ELSE r = WNeg(Wd(t), a)
PosR(t, a, r) == IF IsF(t) THEN SameFP(Fmt(t), a, r) ELSE r = a

-----------------------------------------------------------------------------
(* bits and shifts                                                         *)
ShlR(t, a, n, r) == r = WShl(Wd(t), a, n)
ShrR(t, a, n, r) == r = (IF Sg(t) THEN WShrS(Wd(t), a, IF n >= Wd(t) THEN Wd(t)-1 ELSE n)
                         ELSE WShrU(Wd(t), a, n))

-----------------------------------------------------------------------------
(* comparisons: r is a mask lane                                           *)
ICmp(t, a, b) == IF Sg(t) THEN WCmpS(Wd(t), a, b) ELSE WCmpU(a, b)
CmpR(op, t, a, b) ==
   IF IsF(t)
   THEN LET x == Dec(Fmt(t), a)  y == Dec(Fmt(t), b)
        IN CASE op = "eq" -> Eq(x, y)   [] op = "ne" -> ~Eq(x, y)
             [] op = "lt" -> Lt(x, y)   [] op = "le" -> Le(x, y)
             [] op = "gt" -> Lt(y, x)   [] op = "ge" -> Le(y, x)
   ELSE LET c == ICmp(t, a, b)
        IN CASE op = "eq" -> c = 0   [] op = "ne" -> c # 0
             [] op = "lt" -> c < 0   [] op = "le" -> c <= 0
             [] op = "gt" -> c > 0   [] op = "ge" -> c >= 0
B01(p) == IF p THEN 1 ELSE 0
IsZeroLane(t, a) == IF IsF(t) THEN IsZero(Fmt(t), a) ELSE BIsZero(a)

\* min/max: domain excludes NaN; equal values (in particular +0/-0) may
\* come from either operand
MinR(t, a, b, r) == IF CmpR("lt", t, a, b) THEN r = a
                    ELSE IF CmpR("lt", t, b, a) THEN r = b ELSE r \in {a, b}
MaxR(t, a, b, r) == IF CmpR("lt", t, a, b) THEN r = b
                    ELSE IF CmpR("lt", t, b, a) THEN r = a ELSE r \in {a, b}
ClampR(t, v, lo, hi, r) ==
   IF CmpR("lt", t, v, lo) THEN r = lo \/ (CmpR("eq", t, lo, hi) /\ r = hi)
   ELSE IF CmpR("lt", t, hi, v) THEN r = hi \/ (CmpR("eq", t, lo, hi) /\ r = lo)
   ELSE r = v \/ (CmpR("eq", t, v, lo) /\ r = lo) \/ (CmpR("eq", t, v, hi) /\ r = hi)

-----------------------------------------------------------------------------
(* value conversion t -> u (static_cast semantics)                         *)
ConvR(t, u, a, r) ==
   CASE IsF(t) /\ IsF(u) -> FToF(Fmt(t), Fmt(u), a, r)
     [] IsF(t) -> FFitsI(Fmt(t), a, Wd(u), Sg(u)) => FToI(Fmt(t), a, Wd(u), r)
     [] IsF(u) -> IToF(Wd(t), Sg(t), Fmt(u), a, r)
     [] OTHER  -> r = WResize(Wd(t), Wd(u), a, Sg(t))

-----------------------------------------------------------------------------
(* dispatch: x is the tuple of lane values, the result last                *)
Ops1 == {"neg", "pos", "inc", "dec", "not", "lnot", "mnot", "abs", "mcopy"}
Ops2 == {"add", "sub", "mul", "div", "and", "or", "xor", "shl", "shr",
         "eq", "ne", "lt", "le", "gt", "ge", "min", "max",
         "mand", "mor", "mxor", "meq", "mne", "band"}
\* to_u: conversion of a lane of type t to type u
ConvTab == [to_i8 |-> "i8", to_u8 |-> "u8", to_i16 |-> "i16", to_u16 |-> "u16",
            to_i32 |-> "i32", to_u32 |-> "u32", to_i64 |-> "i64", to_u64 |-> "u64",
            to_f32 |-> "f32", to_f64 |-> "f64", to_f80 |-> "f80"]
MaskedTab == [w_copy |-> "copy", w_mcopy |-> "copy", w_add |-> "add", w_sub |-> "sub", w_mul |-> "mul",
              w_div |-> "div", w_rem |-> "rem", w_inc |-> "inc", w_dec |-> "dec", w_neg |-> "neg",
              w_and |-> "and", w_or |-> "or", w_xor |-> "xor", w_shl |-> "shl", w_shr |-> "shr",
              w_to_i8 |-> "to_i8", w_to_u8 |-> "to_u8", w_to_i16 |-> "to_i16", w_to_u16 |-> "to_u16",
              w_to_i32 |-> "to_i32", w_to_u32 |-> "to_u32", w_to_i64 |-> "to_i64", w_to_u64 |-> "to_u64",
              w_to_f32 |-> "to_f32", w_to_f64 |-> "to_f64", w_to_f80 |-> "to_f80"]
LaneOK(op, t, x) ==
   CASE op = "add" -> AddR(t, x[1], x[2], x[3])
     [] op = "sub" -> SubR(t, x[1], x[2], x[3])
     [] op = "mul" -> MulR(t, x[1], x[2], x[3])
     [] op = "div" -> DivR(t, x[1], x[2], x[3])
     [] op = "rem" -> RemR(t, x[1], x[2], x[3], x[4])
     [] op = "neg" -> NegR(t, x[1], x[2])
     [] op = "pos" -> PosR(t, x[1], x[2])
     [] op = "inc" -> AddR(t, x[1], One(t), x[2])
     [] op = "dec" -> SubR(t, x[1], One(t), x[2])
     [] op = "and" -> x[3] = WAnd(x[1], x[2])
     [] op = "or"  -> x[3] = WOr(x[1], x[2])
     [] op = "xor" -> x[3] = WXor(x[1], x[2])
     [] op = "not" -> x[2] = WNot(Wd(t), x[1])
     [] op = "shl" -> ShlR(t, x[1], x[2], x[3])
     [] op = "shr" -> ShrR(t, x[1], x[2], x[3])
     [] op \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
           x[3] = B01(CmpR(op, t, x[1], x[2]))
     [] op = "lnot" -> x[2] = B01(IsZeroLane(t, x[1]))
     [] op = "mand" -> x[3] = B01(x[1] = 1 /\ x[2] = 1)
     [] op = "mor"  -> x[3] = B01(x[1] = 1 \/ x[2] = 1)
     [] op \in {"mxor", "mne"} -> x[3] = B01(x[1] # x[2])
     [] op = "meq"  -> x[3] = B01(x[1] = x[2])
     [] op = "mnot" -> x[2] = 1 - x[1]
     [] op = "mcopy" -> x[2] = x[1]
     [] op = "min" -> MinR(t, x[1], x[2], x[3])
     [] op = "max" -> MaxR(t, x[1], x[2], x[3])
     [] op = "clamp" -> ClampR(t, x[1], x[2], x[3], x[4])
     [] op \in DOMAIN ConvTab -> ConvR(t, ConvTab[op], x[1], x[2])
     [] OTHER -> Assert(FALSE, <<"unknown lane operation", op>>)
\* masked forms  <<k, old, operands..., new>>:  a selected lane takes the step
\* of the plain operation, an unselected lane keeps its value
MaskedLaneOK(op, t, x) ==
   LET n == Len(x)
       base == MaskedTab[op]
   IN IF x[1] = 0 THEN x[n] = x[2]
      ELSE IF base = "copy" THEN x[4] = x[3]
      \* load: <<k, old, memory element, new>>; store: <<k, old memory element, lane, new memory element>>
      ELSE IF base \in DOMAIN ConvTab THEN ConvR(t, ConvTab[base], x[3], x[4])
      ELSE LaneOK(base, t, SubSeq(x, 2, n))
StepOK(op, t, x) == IF op \in DOMAIN MaskedTab THEN MaskedLaneOK(op, t, x) ELSE LaneOK(op, t, x)
=============================================================================
