SPECIFICATION Spec
CONSTANTS Kinds = {"combine", "trad"}
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
