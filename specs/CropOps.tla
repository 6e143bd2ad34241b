------------------------------ MODULE CropOps ------------------------------
(* Cropping.  A frame is a window [x, y, w, h] of the detector image it came *)
(* from plus header positions.  Positions are in quarter pixels (x4).         *)
EXTENDS Integers, Sequences, FiniteSets

AbsC(v) == IF v < 0 THEN -v ELSE v
\* pixel corners (half-integer positions, x4) nearest to position p (x4)
Corners(p) == LET k == p \div 4 IN
              LET cand == {4 * j + 2 : j \in {k - 1, k, k + 1}} IN
              {c \in cand : \A d \in cand : AbsC(c - p) <= AbsC(d - p)}
\* first pixel of a window of even size s centred on corner c
First(c, s) == (c + 2) \div 4 - s \div 2
\* possible windows for a frame of size W, centre p
Firsts(p, s, W) == {First(c, s) : c \in Corners(p)}
Inside(f, s, W) == f >= 0 /\ f + s <= W
=============================================================================
