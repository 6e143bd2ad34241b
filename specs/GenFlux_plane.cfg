SPECIFICATION Spec
CONSTANT Kind = "plane"
INVARIANT GPrint
