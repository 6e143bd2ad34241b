CONSTANTS
  N = 8
  F = 5
INIT Init
NEXT Next
INVARIANTS Found NoneWithoutSaturation HeadsAreHeads LongEnough Monotone BoxInside TailStarts WrapCount
