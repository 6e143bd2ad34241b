SPECIFICATION Spec
CONSTANTS H = 2
 W = 4
 F = 15
 Top = 1
 Thr = 0
INVARIANTS Once Above Gone Bounded Complete
PROPERTIES Ends Shrinks
CHECK_DEADLOCK FALSE
