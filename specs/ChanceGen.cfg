SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANT Laws
