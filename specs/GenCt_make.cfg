SPECIFICATION Spec
CONSTANT Kind = "make"
INVARIANT GPrint
