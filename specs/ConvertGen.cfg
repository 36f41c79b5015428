SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Most_ = 4
  MostB = 2
ACTION_CONSTRAINT Emit
INVARIANT Laws
