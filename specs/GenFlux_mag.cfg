SPECIFICATION Spec
CONSTANT Kind = "mag"
INVARIANT GPrint
