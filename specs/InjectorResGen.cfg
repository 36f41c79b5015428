SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ks = {"S", "CS", "R", "CR", "U"}
  Ns = {"a"}
ACTION_CONSTRAINT Emit
INVARIANTS Widening Hiding
