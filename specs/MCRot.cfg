INIT Init
NEXT Next
CONSTANTS N = 5
INVARIANTS Rigid Back Centered Clean NearestIsNear
CHECK_DEADLOCK FALSE
