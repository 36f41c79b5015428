SPECIFICATION Spec
CONSTANT Most = 3
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
