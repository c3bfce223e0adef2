----------------------------- MODULE SimdTrace -----------------------------
(* A recorded execution is a behaviour of the register machine.  A trace line
   is one program run: <<"prog", type, lanes, steps>>; a step is
   <<instruction, out, changes>> where changes lists every object whose lanes
   are not what they were after the previous step.  After a rejected step the
   recorded state is adopted, so that later steps are still judged.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Simd
VARIABLES l, pc, s
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
T(e) == e[2]
N(e) == e[3]
Steps(e) == e[4]
RECURSIVE Apply(_, _, _)
Apply(st, cs, i) ==
  IF i > Len(cs) THEN st
  ELSE LET c == cs[i] IN
       Apply(CASE c[1] = "v" -> [st EXCEPT !.v[c[2]] = c[3]]
               [] c[1] = "m" -> [st EXCEPT !.m[c[2]] = c[3]]
               [] c[1] = "mem" -> [st EXCEPT !.mem = c[3]]
               [] c[1] = "bm" -> [st EXCEPT !.bm = c[3]], cs, i + 1)
Bad(e, p, s2) == {k \in {p} : ~InstrOK(T(e), N(e), Steps(e)[p][1], s, s2, Steps(e)[p][2])}
Start(i) == IF i <= Len(Trace) THEN InitState(T(Trace[i]), N(Trace[i])) ELSE 0
Init == l = 1 /\ pc = 1 /\ s = Start(1)
Step == /\ l <= Len(Trace)
        /\ pc <= Len(Steps(Trace[l]))
        /\ LET s2 == Apply(s, Steps(Trace[l])[pc][3], 1)
           IN /\ \A k \in Bad(Trace[l], pc, s2) : PrintT(<<"REJECT", l, k>>)
              /\ s' = s2
        /\ pc' = pc + 1
        /\ l' = l
NextLine == /\ l <= Len(Trace)
            /\ pc > Len(Steps(Trace[l]))
            /\ l' = l + 1 /\ pc' = 1 /\ s' = Start(l + 1)
Spec == Init /\ [][Step \/ NextLine]_<<l, pc, s>>
RECURSIVE Total(_)
Total(i) == IF i > Len(Trace) THEN 0 ELSE Len(Steps(Trace[i])) + 1 + Total(i + 1)
Accepted == TLCGet("stats").diameter - 1 = Total(1)
=============================================================================
