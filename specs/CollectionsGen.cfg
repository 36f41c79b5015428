SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 4
ACTION_CONSTRAINT Emit
INVARIANT Laws
