SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxKeys = 1
 NVal = 3
 Show = FALSE
INVARIANTS RefGood Unique
