------------------------------ MODULE RotOps ------------------------------
(* Derotation.  An angle is [c, s, d] with cosine c/d and sine s/d (quarter   *)
(* turns and Pythagorean angles); the centre is given in half pixels.          *)
(* Coordinates of the source of an output pixel are exact in units of 1/(2d).  *)
EXTENDS DQBitsOps

Quarters == {[c |-> 1, s |-> 0, d |-> 1], [c |-> 0, s |-> 1, d |-> 1], [c |-> -1, s |-> 0, d |-> 1], [c |-> 0, s |-> -1, d |-> 1]}
Pyth == {[c |-> p[1] * g[1], s |-> p[2] * g[2], d |-> p[3]] :
            p \in {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>}, g \in {<<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>}}
Angles == Quarters \cup Pyth

Centre(n) == 2 * ((n - 1) \div 2)                 \* of an axis with n pixels, in half pixels

\* the output pixel (x, y) shows what was at the returned place: the scene turns counterclockwise by the angle
SrcX(x, y, cx, cy, a) == a.c * (2 * x - cx) + a.s * (2 * y - cy) + a.d * cx
SrcY(x, y, cx, cy, a) == a.c * (2 * y - cy) - a.s * (2 * x - cx) + a.d * cy
\* nearest pixel to a coordinate in units of 1/(2d); Tie if two are equally near
Nearest(v, d) == (v + d) \div (2 * d)
Tie(v, d) == (v + d) % (2 * d) = 0
OnPixel(v, d) == v % (2 * d) = 0
Inside(k, n) == k >= 0 /\ k < n
\* distance of the coordinate to the edges of an axis with n pixels is at least m pixels
Interior(v, d, n, m) == v >= 2 * d * m /\ v <= 2 * d * (n - 1 - m)
=============================================================================
