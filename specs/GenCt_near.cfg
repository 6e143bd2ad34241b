SPECIFICATION Spec
CONSTANT Kind = "near"
INVARIANT GPrint
