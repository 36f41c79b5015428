SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Most = 3
ACTION_CONSTRAINT Emit
INVARIANTS Sound Detect
