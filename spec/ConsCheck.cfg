SPECIFICATION Spec
INVARIANTS Lossless LanesKept OnlyFixed Antisym AsScalar
PROPERTY NoCycle
CHECK_DEADLOCK FALSE
