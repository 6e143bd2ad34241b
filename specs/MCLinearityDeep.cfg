CONSTANTS
  RVals = {1, 4}
  XVals = {0, 1, 3, 5}
  L = 5
INIT InitAll
NEXT Next
INVARIANTS AtNodes Bounded EdgeConstant OrderFree ClosedForm Constant
