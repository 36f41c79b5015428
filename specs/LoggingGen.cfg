SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Most = 2
ACTION_CONSTRAINT Emit
INVARIANT Means
