CONSTANTS
  S = 64
  Q = 4
  FlagWords = {0, 1, 4, 6, 128}
  Factors = {2, 4, 8, 16}
  Errs = {0, 32, 64}
INIT Init
NEXT Next
INVARIANTS DarkNeutral DarkFlagsAccumulate DarkErrGrows DarkAdditive FlatUnity FlatInvertible FlatErrGrows DivideIsFlat ScaleInverts BadMarked NanIdem FlagAfterNan
