SPECIFICATION Spec
CONSTANTS N = 3
 Steps = 8
 Relabels = TRUE
 Show = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
