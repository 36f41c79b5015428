SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ts = {1, 2}
  Is = {1, 2}
  MaxObj = 3
  MaxInst = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Separate Alive
