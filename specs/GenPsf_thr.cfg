SPECIFICATION Spec
CONSTANT Kind = "thr"
INVARIANT GPrint
