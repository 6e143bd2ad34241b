SPECIFICATION Spec
INVARIANT GPrint
CHECK_DEADLOCK FALSE
