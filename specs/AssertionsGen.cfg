SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MostText = 3
  MostRow = 3
ACTION_CONSTRAINT Emit
INVARIANT Laws
