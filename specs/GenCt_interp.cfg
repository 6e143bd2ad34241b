SPECIFICATION Spec
CONSTANT Kind = "interp"
INVARIANT GPrint
