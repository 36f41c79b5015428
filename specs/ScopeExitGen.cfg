SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Objs = {1, 2, 3}
  MaxF = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Once
