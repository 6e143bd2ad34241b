------------------------------- MODULE MCRot -------------------------------
EXTENDS RotOps, TLC
CONSTANTS N
VARIABLES p, cen, a
vars == <<p, cen, a>>
Init == p \in (0..N) \X (0..N) /\ cen \in (0..(2 * N)) \X (0..(2 * N)) /\ a \in Angles
Next == UNCHANGED vars
Inv(b) == [b EXCEPT !.s = -b.s]
X == SrcX(p[1], p[2], cen[1], cen[2], a)
Y == SrcY(p[1], p[2], cen[1], cen[2], a)
\* distances to the centre are kept: |src - c|^2 = |p - c|^2
Rigid == LET dx == X - a.d * cen[1] dy == Y - a.d * cen[2] ex == 2 * p[1] - cen[1] ey == 2 * p[2] - cen[2] IN
         dx * dx + dy * dy = a.d * a.d * (ex * ex + ey * ey)
\* turning back gives the pixel itself (for quarter turns, where sources are on half pixels)
Back == a \in Quarters /\ OnPixel(X, 1) /\ OnPixel(Y, 1) =>
          /\ SrcX(X \div 2, Y \div 2, cen[1], cen[2], Inv(a)) = 2 * p[1]
          /\ SrcY(X \div 2, Y \div 2, cen[1], cen[2], Inv(a)) = 2 * p[2]
Centered == 2 * p[1] = cen[1] /\ 2 * p[2] = cen[2] => X = a.d * cen[1] /\ Y = a.d * cen[2]
\* a pixel is the source of at most one output pixel in a quarter turn, and none is a tie when the centre is a pixel or a pixel corner
Clean == a \in Quarters /\ (cen[1] - cen[2]) % 2 = 0 => OnPixel(X, 1) /\ OnPixel(Y, 1)
NearestIsNear == LET k == Nearest(X, a.d) e == X - 2 * a.d * k IN e >= -a.d /\ e <= a.d
=============================================================================
