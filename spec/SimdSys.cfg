SPECIFICATION Spec
INVARIANT NoOverflow
CHECK_DEADLOCK FALSE
