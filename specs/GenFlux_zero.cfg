SPECIFICATION Spec
CONSTANT Kind = "zero"
INVARIANT GPrint
