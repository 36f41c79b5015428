SPECIFICATION Spec
CONSTANTS Tests = 3 Places = 2 PerTest = FALSE
INVARIANTS Once Right Order AtMost
PROPERTY Complete
CHECK_DEADLOCK FALSE
