SPECIFICATION Spec
INVARIANT NonNegative
CHECK_DEADLOCK FALSE
