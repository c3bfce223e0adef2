------------------------------ MODULE SimdGen ------------------------------
(* Generates programs for the register machine of Simd.tla (run by TLC in
   simulation mode; the programs are then executed by the real library).  The
   state is an abstraction of the machine: an upper bound b on the magnitude of
   every register's lanes, |lane| <= 2^b, so that signed arithmetic in the
   generated programs never overflows, whatever the number of lanes.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
VARIABLES pc, bnd, mb, prog
vars == <<pc, bnd, mb, prog>>
Class == IOEnv.GEN_CLASS            \* "u" unsigned, "s" signed, "f" floating point
Width == atoi(IOEnv.GEN_WIDTH)      \* bits of the signed type
Depth == atoi(IOEnv.GEN_DEPTH)

Limit == IF Class = "s" THEN Width - 2 ELSE 1000000
CommonOps == {"const", "iota", "copy", "bclane", "setlane", "addlane", "add", "sub", "mul", "neg", "inc", "dec", "pinc",
              "load", "loada", "store", "mload", "mstore", "wcopy", "wconst", "wadd", "wsub", "wmul", "winc", "wdec", "wneg",
              "cvt", "memw", "mmemw", "swapl", "rotc", "revq", "fixc", "wide", "swaph", "eq", "ne", "lt", "le", "gt", "ge", "mlnot", "mconst", "mnot", "mand", "mland", "mor", "mlor",
              "mxor", "mne", "meq", "mcopy", "mfix", "mwide", "mcvt", "mswapl", "rot", "mset", "mwcopy", "mwconst", "mswaph", "bload", "bstore", "mbload", "mbstore",
              "mred", "get", "opq", "olane", "omlane"}
IntOps == {"and", "or", "xor", "not", "shl", "shr", "divc", "hsum", "hxor", "hmin", "hand", "hor", "whmin", "whsum", "min", "max", "clamp", "wand", "wor", "wxor", "wshr"} \cup (IF Class = "s" THEN {"abs"} ELSE {"hmul", "sconst", "wsconst", "shlv", "shrv", "wshl"})
FpOps == {"div", "sconst", "wsconst", "abs", "trunc", "floor", "ceil", "sqrt", "copysign", "isnan", "isfinite", "signbit"}
Ops == CommonOps \cup (IF Class = "f" THEN FpOps ELSE IntOps)
Max2(x, y) == IF x > y THEN x ELSE y
ImmBits == 6
\* bound of the result, or -1 where the instruction could overflow
BoundIn(bd, bm, op, d, a, b, imm) ==
  LET A == bd[a] B == bd[b] D == bd[d] mb0 == bm IN
  CASE op \in {"const", "iota"} -> ImmBits
    [] op \in {"copy", "bclane", "neg", "fixc", "wide", "swaph", "rot", "wneg", "divc", "shr", "abs", "trunc", "floor", "ceil", "sqrt", "copysign"} -> A
    [] op = "cvt" -> Max2(A, IF Width = 64 THEN 32 ELSE 16)
    [] op = "memw" -> Max2(A, IF Width = 64 THEN 32 ELSE 16)
    [] op = "mmemw" -> Max2(Max2(A, mb0), IF Width = 64 THEN 32 ELSE 16)
    [] op \in {"rotc", "revq"} -> A
    [] op = "swapl" -> Max2(A, D)
    [] op = "clamp" -> Max2(Max2(A, B), D)
    [] op = "wshr" -> D
    [] op \in {"setlane", "wconst"} -> Max2(D, ImmBits)
    [] op = "addlane" -> Max2(A, D) + 1
    [] op \in {"add", "sub", "and", "or", "xor"} -> Max2(A, B) + 1
    [] op \in {"min", "max"} -> Max2(A, B)
    [] op = "mul" -> A + B
    [] op = "div" -> 0
    [] op \in {"inc", "dec", "not", "pinc"} -> A + 1
    [] op = "shl" -> A + (imm % Width)
    [] op \in {"load", "loada"} -> mb0
    [] op = "mload" -> Max2(D, mb0)
    [] op = "wcopy" -> Max2(D, A)
    [] op \in {"wadd", "wsub", "wand", "wor", "wxor"} -> Max2(D, A) + 1
    [] op = "wmul" -> Max2(D, D + A)
    [] op \in {"winc", "wdec"} -> D + 1
    [] op \in {"hsum", "whsum"} -> A + 6
    [] OTHER -> 0
Bound(op, d, a, b, imm) == BoundIn(bnd, mb, op, d, a, b, imm)
WritesV == {"const", "iota", "copy", "bclane", "neg", "fixc", "wide", "swaph", "rot", "wneg", "divc", "shr", "abs", "trunc", "floor", "ceil", "sqrt", "copysign", "setlane", "wconst", "addlane",
            "add", "sub", "and", "or", "xor", "min", "max", "mul", "div", "inc", "dec", "not", "pinc", "shl", "load", "loada", "mload", "wcopy",
            "wadd", "wsub", "wand", "wor", "wxor", "wshr", "clamp", "cvt", "memw", "mmemw", "swapl", "rotc", "revq", "wmul", "winc", "wdec"}
Fits(op, d, a, b, imm) == Class # "s" \/ Bound(op, d, a, b, imm) <= Limit
NewBnd(op, d, a, b, imm) ==
  LET x == IF Class = "s" THEN Bound(op, d, a, b, imm) ELSE 0
      n1 == IF op \in WritesV THEN [bnd EXCEPT ![d] = x] ELSE bnd
  IN CASE op = "pinc" /\ a # d -> [n1 EXCEPT ![d] = bnd[a], ![a] = x]
       [] op = "pinc" /\ a = d -> bnd
       [] op = "swapl" -> [n1 EXCEPT ![a] = x]
       [] op = "divc" -> (IF d = b THEN bnd ELSE [n1 EXCEPT ![b] = bnd[a]])
       [] OTHER -> n1
Init == pc = 0 /\ bnd = [r \in 1..4 |-> 0] /\ mb = 0 /\ prog = <<>>
\* the first instructions fill the registers
Prologue == << <<"iota", 1, 1, 1, 1, 3>>, <<"iota", 2, 1, 1, 1, 9>>, <<"const", 3, 1, 1, 1, 7>>, <<"lt", 1, 2, 3, 1, 0>>, <<"store", 1, 2, 1, 1, 0>> >>
Start == /\ pc = 0 /\ pc' = Len(Prologue) /\ prog' = Prologue
         /\ bnd' = [r \in 1..4 |-> IF r = 4 THEN 0 ELSE IF Class = "s" THEN ImmBits ELSE 0]
         /\ mb' = (IF Class = "s" THEN ImmBits ELSE 0)
Random(S) == {RandomElement(S)}
\* Short sequences that produce masks whose lanes are all equal but whose history differs (a comparison
\* that also holds in lanes that do not exist, one that does not, and combinations of the two), and look
\* at them.  p and q are mask registers, a and b simd registers.
MaskLife(f, a, b, p, q) ==
  << <<"iota", a, 1, 1, 1, 1>>, <<"const", b, 1, 1, 1, 0>>, <<"gt", p, a, b, 1, 0>>, <<"eq", q, a, a, 1, 0>> >>
  \o (CASE f = 1 -> << <<"mwconst", q, 1, 1, p, 0>> >>
        [] f = 2 -> << <<"mxor", q, p, q, 1, 0>> >>
        [] f = 3 -> << <<"mnot", q, p, 1, 1, 0>> >>
        [] f = 4 -> << <<"mnot", q, q, 1, 1, 0>> >>
        [] f = 5 -> << <<"mland", q, p, q, 1, 0>> >>
        [] f = 6 -> << <<"mne", q, p, q, 1, 0>> >>
        [] f = 7 -> << <<"mnot", p, p, 1, 1, 0>>, <<"mand", q, p, q, 1, 0>> >>
        [] f = 8 -> << <<"mwconst", q, 1, 1, p, 0>>, <<"mset", q, 1, 1, p, a + 7 * b>> >>
        [] f = 9 -> << <<"mxor", q, p, q, 1, 0>>, <<"mset", q, 1, 1, 1, a>> >>
        [] f = 10 -> << <<"eq", p, a, b, 1, 0>>, <<"mwcopy", q, p, 1, q, 0>> >>
        [] OTHER -> << >>)
  \o << <<"mred", 1, q, 1, q, 0>>, <<"whsum", 1, a, 1, q, 0>>, <<"mbstore", 1, q, 1, q, 0>>, <<"mstore", 1, a, 1, q, 0>> >>
Usable(seq) == SelectSeq(seq, LAMBDA x : x[1] \in Ops)
ShiftOps == {"shl", "shr", "wshl", "wshr"}
Issue == /\ pc > 0 /\ pc < Depth
         /\ \E op \in Random(Ops) : \E d \in Random(1..4) : \E a \in Random(1..4) : \E b0 \in Random(1..4) : \E k \in Random(1..3) :
            \E imm0 \in Random(IF op = "divc" THEN 1..63 ELSE IF Class = "u" \/ op \notin {"const", "setlane", "wconst"} THEN 0..63 ELSE -63..63) :
            \E z \in Random(1..8) : \E y \in Random(1..14) :
            \E imm \in {CASE op = "divc" -> imm0 [] z <= 2 -> (imm0 + 64) % 2 [] z = 3 /\ op \in ShiftOps \cup {"const"} -> 63 [] OTHER -> imm0} :
            \E b \in {IF z = 4 THEN a ELSE b0} :
              IF y = 1
              THEN \E f \in Random(1..11) : \E seq \in {Usable(MaskLife(f, a, (a % 4) + 1, k, (k % 3) + 1))} :
                   /\ prog' = prog \o seq
                   /\ bnd' = (IF Class = "s" THEN [bnd EXCEPT ![a] = ImmBits, ![(a % 4) + 1] = ImmBits] ELSE bnd)
                   /\ mb' = (IF Class = "s" THEN Max2(mb, ImmBits) ELSE mb)
                   /\ pc' = pc + 1
              ELSE IF Fits(op, d, a, b, imm)
              THEN /\ prog' = Append(prog, <<op, d, a, b, k, imm>>)
                   /\ bnd' = NewBnd(op, d, a, b, imm)
                   /\ mb' = (IF op \in {"store", "mstore"} /\ Class = "s" THEN Max2(mb, bnd[a]) ELSE mb)
                   /\ pc' = pc + 1
              ELSE \* refresh a register instead
                   /\ prog' = Append(prog, <<"iota", d, a, b, k, imm>>)
                   /\ bnd' = [bnd EXCEPT ![d] = ImmBits] /\ mb' = mb /\ pc' = pc + 1
Emit == pc = Depth /\ pc' = pc + 1 /\ UNCHANGED <<bnd, mb, prog>> /\ PrintT(<<"PROG", ToJson(prog)>>)
Next == Start \/ Issue \/ Emit
Spec == Init /\ [][Next]_vars
NoOverflow == Class = "s" => \A r \in 1..4 : bnd[r] <= Limit
=============================================================================
