------------------------------ MODULE AbiModel ------------------------------
(* The ABI-selection rules of the library (property C16): which register widths
   a target offers for an element type, which ABI simd_abi::deduce picks for N
   lanes, and what that implies for sizes, alignments, rebind and resize. *)
EXTENDS Naturals, Sequences, FiniteSets

X86 == {"sse2", "ssse3", "sse4", "avx", "avx2", "avx512f", "skx"}
Targets == X86 \cup {"aarch64", "armv7", "ppc64le"}

Small  == {"signed char", "unsigned char", "char"}
Types2 == {"short", "unsigned short", "char16_t"}
Types4 == {"int", "unsigned int", "char32_t", "wchar_t"}
Types8 == {"long long", "unsigned long long"}
TypesL == {"long", "unsigned long"}
FpTypes == {"float", "double", "long double"}
Types == Small \cup Types2 \cup Types4 \cup Types8 \cup TypesL \cup FpTypes

TypeBytes(tgt, t) ==
  CASE t \in Small  -> 1
    [] t \in Types2 -> 2
    [] t \in Types4 -> 4
    [] t \in Types8 -> 8
    [] t \in TypesL -> IF tgt = "armv7" THEN 4 ELSE 8
    [] t = "float"  -> 4
    [] t = "double" -> 8
    [] t = "long double" -> IF tgt = "armv7" THEN 8 ELSE 16

IsFp(t) == t \in FpTypes

(* Widest register (bytes) the target's instruction set has full support for;
   0: only scalars. *)
RegBytes(tgt, t) ==
  LET s == TypeBytes(tgt, t) IN
  IF s > 8 \/ t = "long double" THEN 0
  ELSE CASE tgt \in {"sse2", "ssse3", "sse4"} -> 16
         [] tgt = "avx"     -> IF IsFp(t) THEN 32 ELSE 16
         [] tgt = "avx2"    -> 32
         [] tgt = "avx512f" -> IF s >= 4 THEN 64 ELSE 32
         [] tgt = "skx"     -> 64
         [] tgt = "aarch64" -> 16
         [] tgt = "armv7"   -> IF IsFp(t) \/ s = 8 THEN 0 ELSE 16
         [] tgt = "ppc64le" -> 16

(* Register width that is the same whatever instruction-set extensions are on. *)
CompatBytes(tgt, t) ==
  CASE tgt = "ppc64le" -> 0
    [] tgt \in X86 -> RegBytes("sse2", t)
    [] OTHER -> RegBytes(tgt, t)

MaxFixed(tgt, t) == IF tgt = "skx" /\ TypeBytes(tgt, t) = 1 THEN 64 ELSE 32

None == 0
Scalar == 1
Fixed == 2
Vector == 3

Kind(tgt, t, n) ==
  CASE n < 1 -> None
    [] n = 1 -> Scalar
    [] n > 1 /\ n * TypeBytes(tgt, t) <= RegBytes(tgt, t) -> Vector
    [] n > 1 /\ n * TypeBytes(tgt, t) > RegBytes(tgt, t) /\ n <= MaxFixed(tgt, t) -> Fixed
    [] OTHER -> None

NativeLanes(tgt, t) == IF RegBytes(tgt, t) = 0 THEN 1 ELSE RegBytes(tgt, t) \div TypeBytes(tgt, t)
CompatLanes(tgt, t) == IF CompatBytes(tgt, t) = 0 THEN 1 ELSE CompatBytes(tgt, t) \div TypeBytes(tgt, t)
KindOfLanes(n) == IF n = 1 THEN Scalar ELSE Vector

Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
CeilPow2(n) == CHOOSE p \in Pow2 : p >= n /\ \A q \in Pow2 : q >= n => p <= q
MemAlign(bytes, n) == CeilPow2(bytes * n)

Enc(tgt, t, n, base) == LET k == Kind(tgt, t, n) IN IF k = None THEN 0 ELSE k * base + n
SameIfDeduced(tgt, t, n) == IF Kind(tgt, t, n) # None THEN 15 ELSE 0

---------------------------------------------------------------------------
(* recorded facts.  Each operator is the relation "this row of compile-time
   facts is what the model says". *)

AlignOK(tgt, kind, size, align) ==
  /\ align \in Pow2 /\ align <= size /\ size % align = 0
  /\ (tgt \in X86 /\ kind = Vector) => align = size

GenOK(tgt, t, g) ==
  LET s == TypeBytes(tgt, t)
      nl == NativeLanes(tgt, t)
      cl == CompatLanes(tgt, t)
  IN /\ Len(g) = 24
     /\ g[1] = s
     /\ g[2] = MaxFixed(tgt, t)
     /\ g[3] = nl /\ g[4] = KindOfLanes(nl) /\ g[5] = 1
     /\ g[6] = cl /\ g[7] = KindOfLanes(cl) /\ g[8] = 1
     /\ g[9] = 1 /\ g[10] = 1
     /\ g[11] = 1 /\ g[12] = 0 /\ g[13] = 0 /\ g[14] = 0
     /\ g[15] = 0 /\ g[16] = 0 /\ g[17] = 0 /\ g[18] = 0
     /\ g[19] = nl * s /\ AlignOK(tgt, KindOfLanes(nl), g[19], g[20])
     /\ g[21] = cl * s /\ AlignOK(tgt, KindOfLanes(cl), g[21], g[22])
     /\ g[23] = 15
     /\ g[24] = 7

DedOK(tgt, t, n, r) ==
  LET s == TypeBytes(tgt, t)
      k == Kind(tgt, t, n)
  IN /\ Len(r) = 18
     /\ r[1] = n /\ r[2] = k
     /\ IF k = None
        THEN \A i \in 3..18 : r[i] = 0
        ELSE /\ r[3] = n
             /\ IF k = Vector THEN r[4] = CeilPow2(n * s) ELSE r[4] >= n * s
             /\ AlignOK(tgt, k, r[4], r[5])
             /\ r[6] = MemAlign(s, n) /\ r[7] = MemAlign(1, n)
             /\ r[8] = 1
             /\ r[9] = Enc(tgt, "float", n, 100)
             /\ r[10] = Enc(tgt, "long long", n, 100)
             /\ r[11] = Enc(tgt, "signed char", n, 100)
             /\ r[12] = 4 * (IF r[11] # 0 THEN 1 ELSE 0)
             /\ r[13] = Enc(tgt, t, (n + 1) \div 2, 100)
             /\ r[14] = Enc(tgt, t, 2 * n, 1000)
             /\ r[15] = Enc(tgt, t, n + 1, 100)
             /\ r[16] = 4 * (IF r[15] # 0 THEN 1 ELSE 0)
             /\ r[17] = 15
             /\ r[18] \div 2 = 1

FixOK(tgt, t, n, r) ==
  LET s == TypeBytes(tgt, t)
      ok == n >= 1 /\ n <= MaxFixed(tgt, t)
  IN /\ Len(r) = 12
     /\ r[1] = n
     /\ ok => r[2] = 1
     /\ n = 0 => r[2] = 0
     /\ r[3] = (IF ok THEN 1 ELSE 0) /\ r[4] = (IF ok THEN 1 ELSE 0)
     /\ IF ~ok THEN \A i \in 5..12 : r[i] = 0
        ELSE /\ r[5] = n /\ r[6] = 1 /\ r[7] >= n * s
             /\ r[8] = MemAlign(s, n)
             /\ r[9] = Enc(tgt, "float", n, 100)
             /\ r[10] = Enc(tgt, t, n + 1, 100)
             /\ r[11] = Enc(tgt, t, (n + 1) \div 2, 100)
             /\ r[12] = (IF Kind(tgt, t, n) = Fixed THEN 15 ELSE 0)

(* The tag deduced for n lanes of u names a register of b = n * sizeof(u) used
   bytes; it supports every element type that fills those bytes with whole
   lanes, more than one of them, in a register the target has for that type. *)
CrossLanes(tgt, u, n, t) ==
  LET b == n * TypeBytes(tgt, u)
      s == TypeBytes(tgt, t)
  IN IF Kind(tgt, u, n) = Vector /\ b % s = 0 /\ b \div s > 1 /\ b <= RegBytes(tgt, t) THEN b \div s ELSE 0

CrossOK(tgt, u, t, n, r) ==
  LET k == Kind(tgt, u, n)
      s == TypeBytes(tgt, t)
      m == CrossLanes(tgt, u, n, t)
  IN /\ Len(r) = 10
     /\ r[1] = n /\ r[2] = k
     /\ IF k # Vector THEN \A i \in 3..10 : r[i] = 0
        ELSE /\ r[3] = 1
             /\ r[4] = (IF m > 0 THEN 1 ELSE 0) /\ r[5] = r[4]
             \* an unsupported combination has the size it would have (TS, simd_size)
             /\ ((n * TypeBytes(tgt, u)) % s = 0) => r[6] = (n * TypeBytes(tgt, u)) \div s
             /\ r[7] = m
             /\ r[8] = (IF m > 0 THEN CeilPow2(m * s) ELSE 0)
             /\ r[9] = (IF m > 0 THEN MemAlign(s, m) ELSE 0)
             /\ r[10] = (IF m > 0 THEN 7 ELSE 0)
=============================================================================
