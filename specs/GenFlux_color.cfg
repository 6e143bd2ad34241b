SPECIFICATION Spec
CONSTANT Kind = "color"
INVARIANT GPrint
