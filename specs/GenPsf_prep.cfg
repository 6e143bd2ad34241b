SPECIFICATION Spec
CONSTANT Kind = "prep"
INVARIANT GPrint
