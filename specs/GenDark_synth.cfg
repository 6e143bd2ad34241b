SPECIFICATION Spec
CONSTANTS Kinds = {"synth"}
INVARIANTS GPrint
CHECK_DEADLOCK FALSE
