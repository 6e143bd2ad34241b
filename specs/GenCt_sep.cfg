SPECIFICATION Spec
CONSTANT Kind = "sep"
INVARIANT GPrint
