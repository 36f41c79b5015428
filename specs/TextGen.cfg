SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 5
  MostP = 3
ACTION_CONSTRAINT Emit
INVARIANT Laws
