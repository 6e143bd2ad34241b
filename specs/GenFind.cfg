SPECIFICATION Spec
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
