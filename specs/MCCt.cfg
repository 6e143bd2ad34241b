SPECIFICATION Spec
CONSTANTS N = 3
 M = 12
INVARIANTS Answered Whole SameAnswer Together Folded Between Inside Roots Exact
CHECK_DEADLOCK FALSE
