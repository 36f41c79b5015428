SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MostSteps = 4
  MostLength = 150
ACTION_CONSTRAINT Emit
INVARIANT Laws
