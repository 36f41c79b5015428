SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT
  MostHex = 12
ACTION_CONSTRAINT Emit
INVARIANT Laws
