SPECIFICATION Spec
CONSTANTS V = 3  L = 5
INVARIANTS Flat Inside Linear Reciprocal Grow Interp Neutral
CHECK_DEADLOCK FALSE
