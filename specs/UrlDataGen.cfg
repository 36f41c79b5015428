SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MostText = 4
  MostBytes = 3
  MostParams = 5
  MostPath = 4
ACTION_CONSTRAINT Emit
INVARIANT Laws
