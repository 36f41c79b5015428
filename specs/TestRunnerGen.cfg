SPECIFICATION Spec
CONSTANT Most = 2
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
