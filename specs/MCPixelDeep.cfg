CONSTANTS
  S = 64
  Q = 4
  FlagWords = {0, 1, 2, 4, 6, 8, 12, 64, 128, 255}
  Factors = {2, 4, 8, 16}
  Errs = {0, 32, 64, 128}
INIT Init
NEXT Next
INVARIANTS DarkNeutral DarkFlagsAccumulate DarkErrGrows DarkAdditive FlatUnity FlatInvertible FlatErrGrows DivideIsFlat ScaleInverts BadMarked NanIdem FlagAfterNan
