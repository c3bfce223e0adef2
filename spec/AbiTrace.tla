------------------------------ MODULE AbiTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded compile-time facts: one line of the trace is  *)
(* one step  [table, target, element type, row number, row]            .   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, AbiModel
VARIABLE l
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
AbiOK(e) == CASE e[1] = "gen" -> GenOK(e[2], e[3], e[5])
             [] e[1] = "ded" -> DedOK(e[2], e[3], e[4], e[5])
             [] e[1] = "fix" -> FixOK(e[2], e[3], e[4], e[5])
             [] e[1] = "x1" -> CrossOK(e[2], "signed char", e[3], e[4], e[5])
             [] e[1] = "x4" -> CrossOK(e[2], "float", e[3], e[4], e[5])
             [] e[1] = "x8" -> CrossOK(e[2], "double", e[3], e[4], e[5])
Bad(e) == {k \in {1} : ~AbiOK(e)}
Init == l = 1
Step == /\ l <= Len(Trace)
        /\ \A k \in Bad(Trace[l]) : PrintT(<<"REJECT", l, k>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
