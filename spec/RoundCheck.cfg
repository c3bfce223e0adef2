SPECIFICATION Spec
INVARIANTS Deterministic Named Side
CHECK_DEADLOCK FALSE
