------------------------------ MODULE ConsTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded compile-time facts: one line of the trace is  *)
(* one step  [table, target, element type, ..., row]                   .   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, ConsModel
VARIABLE l
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Bad(e) == Mismatch(e)
Init == l = 1
Step == /\ l <= Len(Trace)
        /\ \A k \in Bad(Trace[l]) : PrintT(<<"REJECT", l, k>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
