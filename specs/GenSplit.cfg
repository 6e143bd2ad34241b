SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxKeys = 2
 NVal = 3
 Show = TRUE
INVARIANTS Printed
CONSTRAINT NoGroups
