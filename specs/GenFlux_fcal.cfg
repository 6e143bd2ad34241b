SPECIFICATION Spec
CONSTANT Kind = "fcal"
INVARIANT GPrint
