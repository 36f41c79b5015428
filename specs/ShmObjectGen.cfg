SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Hs = {1, 2, 3}
  Ns = {"a", "b"}
  MaxMem = 2
  MaxV = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Valid
