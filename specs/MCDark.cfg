SPECIFICATION Spec
CONSTANTS V = {0, 1, 3}
 N = 4
 G = {1, 2, 4}
 T = {0, 1, 2}
 P = 6
INVARIANTS Averages Identifies SynthModel BadPixels
CHECK_DEADLOCK FALSE
