SPECIFICATION Spec
CONSTANTS Depth = 14
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
