SPECIFICATION Spec
CONSTANTS Kinds = {"lsq"}
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
