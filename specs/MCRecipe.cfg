SPECIFICATION Spec
CONSTANTS Depth = 9
INVARIANTS Once Ordered Same
CHECK_DEADLOCK FALSE
