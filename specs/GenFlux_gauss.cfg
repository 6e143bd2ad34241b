SPECIFICATION Spec
CONSTANT Kind = "gauss"
INVARIANT GPrint
