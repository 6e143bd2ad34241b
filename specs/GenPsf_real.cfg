SPECIFICATION Spec
CONSTANT Kind = "real"
INVARIANT GPrint
