SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  DepKinds = {"S", "CS", "W", "CW", "R", "CR", "U", "CU"}
  Ns = {"", "a"}
ACTION_CONSTRAINT Emit
INVARIANTS Order
