SPECIFICATION Spec
CONSTANTS N = 6  W = 8  H = 7
INVARIANTS Partition ModeOk Centred HiddenStays Commute Turned Metric
CHECK_DEADLOCK FALSE
