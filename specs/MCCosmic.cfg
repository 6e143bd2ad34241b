CONSTANTS
  N = 6
  F = 3
INIT Init
NEXT Next
INVARIANTS Found NoneWithoutSaturation HeadsAreHeads LongEnough Monotone BoxInside TailStarts WrapCount
