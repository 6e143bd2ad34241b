SPECIFICATION Spec
CONSTANTS Depth = 22
INVARIANTS GPrint GInv
CHECK_DEADLOCK FALSE
