SPECIFICATION Spec
INVARIANT Bounded
CHECK_DEADLOCK FALSE
