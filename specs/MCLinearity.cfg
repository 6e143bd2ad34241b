CONSTANTS
  RVals = {1, 4}
  XVals = {0, 1, 5}
  L = 4
INIT InitAll
NEXT Next
INVARIANTS AtNodes Bounded EdgeConstant OrderFree ClosedForm Constant
