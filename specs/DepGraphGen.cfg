SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Keys = {"a", "b", "c"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY RemoveForgets
