SPECIFICATION Spec
CONSTANT Kind = "noise"
INVARIANT GPrint
