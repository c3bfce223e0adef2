----------------------------- MODULE LaneTrace -----------------------------
(***************************************************************************)
(* Conformance: every recorded element-wise step of the implementation     *)
(* must be a step the lane semantics allows.  One line of the trace is     *)
(*   [op, type, <<tuple, tuple, ...>>]                                     *)
(* and is consumed by one action.  Rejected tuples are reported and the    *)
(* trace is resynchronised, so that one deviation does not hide another.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, LaneOps, MathOps, FunOps
VARIABLE l
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

TupleOK(op, t, x) == IF op \in MathOpNames THEN MathOK(op, t, x)
                     ELSE IF op \in FunOpNames THEN FunOK(op, t, x) ELSE StepOK(op, t, x)
\* (a set comprehension, so that TLC evaluates TupleOK as an expression and does
\* not branch on its disjunctions)
BadTuples(e) == {k \in 1..Len(e[3]) : ~TupleOK(e[1], e[2], e[3][k])}

Init == l = 1
Step == /\ l <= Len(Trace)
        /\ \A k \in BadTuples(Trace[l]) : PrintT(<<"REJECT", l, k>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
