SPECIFICATION Spec
CONSTANTS V = {0, 1, 3, 4}
 N = 4
 G = {1, 2, 3, 5}
 T = {0, 1, 2}
 P = 8
INVARIANTS Averages Identifies SynthModel BadPixels
CHECK_DEADLOCK FALSE
