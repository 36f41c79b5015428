SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ks = {1, 2}
  MaxSize = 6
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS RootKept Idempotent Covers
