-------------------------------- MODULE CtOps --------------------------------
(***************************************************************************)
(* Core throughput: what a measuring sequence is turned into and how the    *)
(* result is looked up.  Positions are integers (the scale is the caller's); *)
(* azimuths are whole degrees.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
AbsC(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Root(n) == RootIn(n, 0, 32768)                                   \* floor of the square root
\* -- the mask centre in the coordinates of the calibration, whose (0,0) is a pixel corner ("half" of a pixel away from its centre)
OnDetector(star, off) == [x |-> star.x + off.x, y |-> star.y + off.y]
Centre(star, off, half) == [x |-> star.x + off.x + half, y |-> star.y + off.y + half]
Dist2(p, q) == Sq(p.x - q.x) + Sq(p.y - q.y)
Separations(pts, cen) == [i \in DOMAIN pts |-> Root(10000 * Dist2(pts[i], cen))]      \* hundredths
NearInSep(pts, cen, sep) == LET s == Separations(pts, cen)
                                best == CHOOSE b \in {AbsC(s[i] - 100 * sep) : i \in DOMAIN pts} : \A i \in DOMAIN pts : AbsC(s[i] - 100 * sep) >= b
                            IN {i \in DOMAIN pts : AbsC(s[i] - 100 * sep) <= best + 2}
NearInPlace(pts, at) == {i \in DOMAIN pts : \A j \in DOMAIN pts : Dist2(pts[i], at) <= Dist2(pts[j], at)}
\* -- the mask's centre while the throughput was measured: moved by what the mechanisms moved since
\*    (m: matrix rows, in the scale unit; d: (h,v) in another; both products in the scale of the star's position)
Moved(star, off, m, ct, cor) == LET dh == ct.h - cor.h  dv == ct.v - cor.v IN
                                [x |-> star.x + off.x + m[1][1] * dh + m[1][2] * dv, y |-> star.y + off.y + m[2][1] * dh + m[2][2] * dv]
\* -- interpolation in (radius, azimuth): azimuths are taken from the smallest one on, modulo their range
Fold(az, az0, range) == (az - az0) % range
Affine(f, u, az) == f.a + f.b * u + f.c * az
\* -- the sequence: pupil images carry no off-axis source
SumAll(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE s[k] + S(k - 1) IN S(Len(s))
OffAxis(frames) == SelectSeq(frames, LAMBDA f : ~f.pupil)
Pupils(frames) == SelectSeq(frames, LAMBDA f : f.pupil)
Peak(px) == CHOOSE m \in {px[i].v : i \in DOMAIN px} : \A i \in DOMAIN px : px[i].v <= m
CoreSum(px) == SumAll([i \in DOMAIN px |-> IF 2 * px[i].v >= Peak(px) THEN px[i].v ELSE 0])
TotalOf(px) == SumAll([i \in DOMAIN px |-> px[i].v])
\* brightest pixel; the moments of what lies within roi pixels of it
Brightest(px) == CHOOSE i \in DOMAIN px : px[i].v = Peak(px)
InRoi(px, roi) == SelectSeq(px, LAMBDA p : LET b == px[Brightest(px)] IN AbsC(p.x - b.x) <= roi /\ AbsC(p.y - b.y) <= roi)
MomentX(px) == SumAll([i \in DOMAIN px |-> px[i].v * px[i].x])
MomentY(px) == SumAll([i \in DOMAIN px |-> px[i].v * px[i].y])
\* nearest whole numbers of a / b, a >= 0, b > 0 (two of them half way)
Rounded(a, b) == {z \in {a \div b, (a \div b) + 1} : 2 * AbsC(a - z * b) <= b}
HalfWindow(filter) == CASE filter = "1F" -> 7 [] filter = "2C" -> 8 [] filter = "3B" -> 9 [] filter = "4A" -> 10 [] OTHER -> 0
=============================================================================
