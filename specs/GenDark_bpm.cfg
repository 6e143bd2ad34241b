SPECIFICATION Spec
CONSTANTS Kinds = {"bpm"}
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
