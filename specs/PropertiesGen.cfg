SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Most = 4
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip Depths
