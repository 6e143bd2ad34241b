SPECIFICATION GSpec
CONSTANTS UsedKinds = {}
 Paths = {"p", "q", "r"}
 MaxSteps = 16
 MaxObjs = 9
INVARIANT GPrint
CHECK_DEADLOCK FALSE
