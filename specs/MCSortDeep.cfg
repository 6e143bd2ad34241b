SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS Ok NL
CHECK_DEADLOCK FALSE
