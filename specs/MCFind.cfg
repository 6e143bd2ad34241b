SPECIFICATION Spec
CONSTANTS H = 2
 W = 3
 F = 11
 Top = 2
 Thr = 0
INVARIANTS Once Above Gone Bounded Complete
PROPERTIES Ends Shrinks
CHECK_DEADLOCK FALSE
