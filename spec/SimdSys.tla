------------------------------ MODULE SimdSys ------------------------------
(* Systematic programs for the register machine: every instruction meets every
   combination of constant and opaque operands (A, B, and the mask with the old
   destination), in blocks

     set v1, v2, v3, m1, m2 to constants of several forms;
     hide a subset of them from the optimiser (opq / olane / omlane);
     four instructions reading v1, v2, m1, m2, writing v3 or m3.

   Program p of P takes the instructions (p-1)*Per+1 .. p*Per of the endless
   sequence "all instructions under pattern 0, all under pattern 1, ...", so P*Per
   >= 8*|Ops| covers every (instruction, pattern) pair.  Unlike SimdGen this is an
   ordinary (breadth-first) TLC run; random choices come from the state.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets, SequencesExt
VARIABLES pc, bnd, mb, prog
G == INSTANCE SimdGen
NP == atoi(IOEnv.GEN_PROGS)
Per == atoi(IOEnv.GEN_DEPTH)
Seed == atoi(IOEnv.GEN_SEED)
Class == G!Class
OpSeq == SetToSeq(G!Ops \ {"opq", "olane", "omlane"})
NOps == Len(OpSeq)
\* a small pseudo-random function of (program, position, purpose)
Mix(x) == LET a == (x * 29 + 7) % 46337
              b == (a * a + a + x) % 46337
              c == (b * b + 3 * a + 1) % 46337
          IN (c * c + 5 * b + a) % 46337
Rnd(p, i, k) == Mix((Mix((Mix((Seed + 11 * p) % 46337) + 37 * i) % 46337) + 101 * k) % 46337)
Imm(op, r) == LET v == IF r % 4 = 0 THEN (r \div 4) % 2 ELSE (r \div 4) % 64 IN
              IF op = "divc" THEN 1 + ((r \div 4) % 63)
              ELSE IF op \in G!ShiftOps \cup {"const"} /\ r % 5 = 0 THEN 63
              ELSE IF Class # "u" /\ op \in {"const", "setlane", "wconst"} /\ r % 3 = 0 THEN 0 - v ELSE v
\* one register holding a constant of form f
SetV(d, f, r) ==
  CASE f % 4 = 0 -> << <<"iota", d, 1, 1, 1, Imm("iota", r)>> >>
    [] f % 4 = 1 -> << <<(IF Class = "s" THEN "const" ELSE "sconst"), d, 1, 1, 1, Imm("sconst", r)>> >>
    [] f % 4 = 2 -> << <<"const", d, 1, 1, 1, Imm("const", r)>> >>
    [] f % 4 = 3 -> << <<"iota", d, 1, 1, 1, Imm("iota", r)>>, <<"setlane", d, 1, 1, 1, Imm("setlane", r \div 3)>> >>
SetM(d, f, r) ==
  CASE f % 4 = 0 -> << <<"mconst", d, 1, 1, 1, r % 2>> >>
    [] f % 4 = 1 -> << <<"lt", d, 1, 2, 1, 0>> >>
    [] f % 4 = 2 -> << <<"mconst", d, 1, 1, 1, r % 2>>, <<"mset", d, 1, 1, 1 + (r % 2), (r \div 2) % 50>> >>
    [] f % 4 = 3 -> << <<"lt", d, 2, 1, 1, 0>>, <<"mset", d, 1, 1, 1 + (r % 2), (r \div 2) % 50>> >>
Hide(pat, r) ==
  (IF pat % 2 = 1 THEN << <<(IF r % 3 = 0 THEN "olane" ELSE "opq"), 1, 1, 1, 3, (r \div 3) % 50>> >> ELSE <<>>)
  \o (IF (pat \div 2) % 2 = 1 THEN << <<(IF r % 5 = 0 THEN "olane" ELSE "opq"), 2, 1, 1, 2, (r \div 5) % 50>> >> ELSE <<>>)
  \o (IF pat \div 4 = 1 THEN << <<(IF r % 7 = 0 THEN "omlane" ELSE "opq"), 3, 1, 1, 1, (r \div 7) % 50>> >> ELSE <<>>)
Setup(p, i, pat) ==
  SetV(1, Rnd(p, i, 1), Rnd(p, i, 2)) \o SetV(2, Rnd(p, i, 3), Rnd(p, i, 4)) \o SetV(3, Rnd(p, i, 5), Rnd(p, i, 6))
  \o SetM(1, Rnd(p, i, 7), Rnd(p, i, 8)) \o SetM(2, Rnd(p, i, 9), Rnd(p, i, 10)) \o Hide(pat, Rnd(p, i, 11))
One(op, imm) == <<op, 3, 1, 2, 1, imm>>
Reset == <<"iota", 3, 1, 1, 1, 3>>
\* state: pc = <<program, next instruction>>
Init == /\ \E p \in 1..NP : pc = <<p, 1>>
        /\ bnd = [r \in 1..4 |-> G!ImmBits] /\ mb = G!ImmBits
        /\ prog = << <<"iota", 4, 1, 1, 1, 5>>, <<"store", 4, 4, 1, 1, 0>>, <<"iota", 4, 1, 1, 1, 1>> >>
Index == (pc[1] - 1) * Per + pc[2] - 1
Op == OpSeq[(Index % NOps) + 1]
Pattern == (Index \div NOps) % 8
B0 == [r \in 1..4 |-> G!ImmBits]
Issue == /\ pc[2] <= Per
         /\ LET fresh == pc[2] % 4 = 1
                pre == IF fresh THEN Setup(pc[1], pc[2], Pattern) ELSE <<>>
                b1 == IF fresh THEN B0 ELSE bnd
                r == Rnd(pc[1], pc[2], 12)
                imm0 == Imm(Op, r)
                Fit(b, im) == Class # "s" \/ G!BoundIn(b, mb, Op, 3, 1, 2, im) <= G!Limit
                imm == IF Op = "shl" /\ ~Fit(B0, imm0) THEN imm0 % 16 ELSE imm0
                rst == ~Fit(b1, imm)
                b2 == IF rst THEN B0 ELSE b1
            IN /\ prog' = prog \o pre \o (IF rst THEN <<Reset>> ELSE <<>>) \o <<One(Op, imm)>>
               /\ bnd' = IF Class = "s" /\ Op \in G!WritesV THEN [b2 EXCEPT ![3] = G!BoundIn(b2, mb, Op, 3, 1, 2, imm),
                                                                        ![1] = IF Op = "pinc" THEN b2[1] + 1 ELSE IF Op = "swapl" THEN G!BoundIn(b2, mb, Op, 3, 1, 2, imm) ELSE b2[1]]
                         ELSE b2
               /\ mb' = mb
         /\ pc' = <<pc[1], pc[2] + 1>>
Emit == /\ pc[2] = Per + 1 /\ PrintT(<<"PROG", ToJson(prog)>>)
        /\ pc' = <<pc[1], pc[2] + 1>> /\ UNCHANGED <<bnd, mb, prog>>
Next == Issue \/ Emit
Spec == Init /\ [][Next]_<<pc, bnd, mb, prog>>
NoOverflow == Class = "s" => \A r \in 1..4 : bnd[r] <= G!Limit
=============================================================================
