CONSTANTS
  Z = 12
  D = {0, 1, 6}
  N = 4
INIT Init
NEXT Next
INVARIANTS Bounded MeanExact FlaggedIffAllBad AllTheirFlags DropFlagged Order
