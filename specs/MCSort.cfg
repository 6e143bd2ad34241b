SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Ok NL
CHECK_DEADLOCK FALSE
