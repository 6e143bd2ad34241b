SPECIFICATION Spec
CONSTANTS N = 1
 Steps = 6
 Relabels = FALSE
 Show = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
