SPECIFICATION Spec
CONSTANTS V = 2  L = 3
INVARIANTS Flat Inside Linear Reciprocal Grow Interp Neutral
CHECK_DEADLOCK FALSE
