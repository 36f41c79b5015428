SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 4
  MostParts = 5
ACTION_CONSTRAINT Emit
INVARIANTS Recompose NormalSound
