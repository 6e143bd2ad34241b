------------------------------- MODULE MCCrop -------------------------------
(* Repeated crops of one frame: the header positions always refer to the     *)
(* same detector and sky positions.                                          *)
EXTENDS CropOps, TLC
CONSTANTS W0, STAR
VARIABLES x, w, star, det, ref
Init == x = 0 /\ w = W0 /\ star \in STAR /\ det = 0 /\ ref = 10
Crop == \E p \in 0..(4 * w), s \in {2, 4, 6} :
          \E f \in Firsts(p, s, w) :
            /\ Inside(f, s, w)
            /\ x' = x + f /\ w' = s /\ star' = star - 4 * f /\ det' = det + f /\ ref' = ref - 4 * f
            /\ AbsC((4 * f + 2 * s - 2) - p) <= 2                     \* the window's central corner is nearest to the centre
            /\ AbsC(2 * s + 4 * f - 2 - p) <= AbsC(2 * s + 4 * (f + 1) - 2 - p)
            /\ AbsC(2 * s + 4 * f - 2 - p) <= AbsC(2 * s + 4 * (f - 1) - 2 - p)
Next == Crop
\* every crop that stays inside is possible (the centring conditions above never block it)
Total == \A p \in 0..(4 * w), s \in {2, 4, 6} : \A f \in Firsts(p, s, w) :
           Inside(f, s, w) => AbsC((4 * f + 2 * s - 2) - p) <= 2
SameDetectorPixel == det = x
SamePlaces == \E s0 \in STAR : star + 4 * det = s0 /\ ref + 4 * det = 10
Window == x >= 0 /\ w >= 1 /\ x + w <= W0
=============================================================================
