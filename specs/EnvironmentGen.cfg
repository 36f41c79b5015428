SPECIFICATION Spec
CONSTANT Two = FALSE
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS Formed Kept Wired
