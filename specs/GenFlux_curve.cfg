SPECIFICATION Spec
CONSTANT Kind = "curve"
INVARIANT GPrint
