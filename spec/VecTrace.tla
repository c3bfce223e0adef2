------------------------------ MODULE VecTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded whole-register steps: one line of the trace is  *)
(* one step  [op, type, operands..., results...]  of the implementation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, VecOps
VARIABLE l
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Bad(e) == {k \in {1} : ~VecOK(e)}
Init == l = 1
Step == /\ l <= Len(Trace)
        /\ \A k \in Bad(Trace[l]) : PrintT(<<"REJECT", l, k>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
