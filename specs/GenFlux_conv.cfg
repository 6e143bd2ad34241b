SPECIFICATION Spec
CONSTANT Kind = "conv"
INVARIANT GPrint
