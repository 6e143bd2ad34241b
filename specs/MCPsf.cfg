SPECIFICATION Spec
CONSTANTS N = 4  W = 6  H = 4
INVARIANTS Partition ModeOk Centred HiddenStays Commute Turned Metric
CHECK_DEADLOCK FALSE
