SPECIFICATION Spec
CONSTANT Kind = "band"
INVARIANT GPrint
