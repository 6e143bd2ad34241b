------------------------------ MODULE FindOps ------------------------------
(* Source finding on a grid: W columns, pixels numbered row by row from 0.      *)
(* The loop: take the peak of the significance map, record it when it exceeds    *)
(* the threshold, take a scaled copy of the PSF out of the residual there, drop   *)
(* the core, and start over.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Row(p, W) == p \div W
Col(p, W) == p % W
D2(p, q, W) == (Row(p, W) - Row(q, W)) * (Row(p, W) - Row(q, W)) + (Col(p, W) - Col(q, W)) * (Col(p, W) - Col(q, W))
\* f: full width at half maximum in tenths of a pixel
InCore(p, q, W, f) == 100 * D2(p, q, W) < f * f
InDisc(dy, dx, f) == 400 * (dy * dy + dx * dx) <= f * f
\* core actually dropped: also inside the PSF's box of half sizes (window [-h, n-1-h])
InBox(p, q, W, ph, pw) == LET dy == Row(q, W) - Row(p, W) + ph \div 2  dx == Col(q, W) - Col(p, W) + pw \div 2 IN dy \in 0..(ph - 1) /\ dx \in 0..(pw - 1)
BoxIndex(p, q, W, ph, pw) == (Row(q, W) - Row(p, W) + ph \div 2) * pw + Col(q, W) - Col(p, W) + pw \div 2
=============================================================================
