----------------------------- MODULE ConsCheck -----------------------------
(* Exhaustive check of the conversion rules themselves: a value held in a simd
   object is converted implicitly step by step; whatever chain of implicit
   conversions the rules allow, the value set only ever grows and the lane
   count never changes. *)
EXTENDS ConsModel
VARIABLES tgt, t, a, t0, a0
vars == <<tgt, t, a, t0, a0>>
ABIs(g, u) == {Abi(g, u, "scalar", 1), Abi(g, u, "native", 1), Abi(g, u, "compat", 1), <<"f", 4>>, <<"f", 8>>}
Init == /\ tgt \in {"sse2", "avx2", "skx", "aarch64", "armv7", "ppc64le"}
        /\ t \in Types /\ a \in ABIs(tgt, t)
        /\ t0 = t /\ a0 = a
Convert == \E u \in Types : \E b \in ABIs(tgt, u) :
             /\ Implicit(tgt, t, a, u, b)
             /\ t' = u /\ a' = b /\ UNCHANGED <<tgt, t0, a0>>
Next == Convert
Spec == Init /\ [][Next]_vars

Lossless == ~Narrow(tgt, t0, t)
LanesKept == SizeOf(tgt, t, a) = SizeOf(tgt, t0, a0)
OnlyFixed == (t # t0) => (a[1] = "f" /\ a0[1] = "f")
(* no two different types convert to each other: overload resolution of the
   friend operators is never ambiguous *)
Antisym == \A u \in Types : \A b \in ABIs(tgt, u) :
             (Implicit(tgt, t, a, u, b) /\ Implicit(tgt, u, b, t, a)) => SameType(t, a, u, b)
(* conversions do not form cycles: the chain can only return to where it began
   by never having left *)
NoCycle == [][ (t' = t0) => (t = t0) ]_vars
(* an implicit simd conversion is never looser than the scalar broadcast *)
AsScalar == Broadcast(tgt, t0, t)
=============================================================================
