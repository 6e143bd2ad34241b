SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Prob CountsOk
CHECK_DEADLOCK FALSE
