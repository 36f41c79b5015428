SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ps = {1, 2}
  Codes = {0, 7, 255}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY ReportedOnce
