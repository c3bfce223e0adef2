------------------------------ MODULE AbiCheck ------------------------------
(* Exhaustive check of the ABI model itself: a walk over every (target, element
   type, lane count), rebinding and resizing as it goes. *)
EXTENDS AbiModel
VARIABLES tgt, t, n, ver
vars == <<tgt, t, n, ver>>

Chain == <<"sse2", "ssse3", "sse4", "avx", "avx2", "avx512f", "skx">>
Wider(a) == LET i == CHOOSE j \in 1..7 : Chain[j] = a IN Chain[i + 1]

Init == /\ tgt \in {"sse2", "aarch64", "armv7", "ppc64le"}
        /\ t \in Types /\ n = 1
        /\ ver = "start"

Resize == \E m \in {n + 1, 2 * n, (n + 1) \div 2} :
            Kind(tgt, t, m) # None /\ n' = m /\ ver' = "resize" /\ UNCHANGED <<tgt, t>>
Rebind == \E u \in Types :
            Kind(tgt, u, n) # None /\ t' = u /\ ver' = "rebind" /\ UNCHANGED <<tgt, n>>
Upgrade == /\ tgt \in X86 \ {"skx"}
           /\ tgt' = Wider(tgt) /\ ver' = "upgrade" /\ UNCHANGED <<t, n>>
Next == Resize \/ Rebind \/ Upgrade
Spec == Init /\ [][Next]_vars

(* every reachable (type, lane count) has an ABI with exactly that many lanes *)
Supported == Kind(tgt, t, n) # None
(* a register is preferred over fixed_size whenever one is wide enough *)
Prefers == (Kind(tgt, t, n) = Fixed) <=> (n > NativeLanes(tgt, t) /\ n > 1)
NativeIsMax == /\ Kind(tgt, t, NativeLanes(tgt, t)) \in {Scalar, Vector}
               /\ Kind(tgt, t, NativeLanes(tgt, t) + 1) \in {Fixed, None}
CompatFits == CompatLanes(tgt, t) <= NativeLanes(tgt, t)
FixedReaches == MaxFixed(tgt, t) >= 32 /\ MaxFixed(tgt, t) >= NativeLanes(tgt, t)
AlignCovers == MemAlign(TypeBytes(tgt, t), n) >= n * TypeBytes(tgt, t) /\ MemAlign(TypeBytes(tgt, t), n) < 2 * n * TypeBytes(tgt, t) + 1
(* a register tag means the same bytes for every element type it supports, and
   every tag of a type's own lane counts supports that type *)
CrossConsistent == \A u \in Types : LET m == CrossLanes(tgt, t, n, u) IN
  m > 0 => /\ m * TypeBytes(tgt, u) = n * TypeBytes(tgt, t)
           /\ Kind(tgt, u, m) = Vector
           /\ CrossLanes(tgt, u, m, t) = n
CrossReflexive == Kind(tgt, t, n) = Vector => CrossLanes(tgt, t, n, t) = n
CompatStable == tgt \in X86 => CompatLanes(tgt, t) = CompatLanes("sse2", t)

(* a wider instruction set never loses a register or a lane count *)
Monotone == [][ tgt' # tgt => /\ Kind(tgt', t, n) # None
                              /\ (Kind(tgt, t, n) = Vector => Kind(tgt', t, n) = Vector)
                              /\ NativeLanes(tgt', t) >= NativeLanes(tgt, t)
                              /\ MaxFixed(tgt', t) >= MaxFixed(tgt, t) ]_vars
=============================================================================
