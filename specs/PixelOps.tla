------------------------------ MODULE PixelOps ------------------------------
(* What the pixelwise steps do to one pixel of one frame.                     *)
(* A pixel is [v |-> .., e2 |-> .., d |-> ..]: value x S, squared error x S*S,  *)
(* flag word.  Factors (gains, flats, exposure times) are given x Q.           *)
EXTENDS DQBitsOps, TLC
CONSTANTS S, Q

\* ---- dark subtraction, dk = the dark's pixel
DarkSub(p, dk) == [v |-> p.v - dk.v, e2 |-> p.e2 + dk.e2, d |-> Or(p.d, dk.d)]

\* ---- flat division by f/Q with flat error fe/Q;  v/f, e/f (+) v fe/f^2
FlatBad(f) == f = 0
FlatDiv(p, f, fe) ==
  [v  |-> (p.v * Q) \div f,
   e2 |-> (p.e2 * Q * Q) \div (f * f) + (((p.v * Q * fe) \div (f * f)) * ((p.v * Q * fe) \div (f * f))),
   d  |-> p.d]

\* ---- multiplication by k/Q (error kerr/Q)
Electrons(p, k, kerr) ==
  [v  |-> (p.v * k) \div Q,
   e2 |-> (p.e2 * k * k) \div (Q * Q) + ((p.v * kerr) \div Q) * ((p.v * kerr) \div Q),
   d  |-> p.d]
ScaleE2(e2, k) == (e2 * k * k) \div (Q * Q)
DivideE2(e2, g) == (e2 * Q * Q) \div (g * g)

\* ---- division by g/Q
Divide(p, g) == [v |-> (p.v * Q) \div g, e2 |-> DivideE2(p.e2, g), d |-> p.d]

\* ---- bad pixels, masks and NaN
NaNV == -1000000007
BadPix(p, m) == LET b == Or(p.d, m) IN
                IF b # 0 THEN [v |-> NaNV, e2 |-> p.e2, d |-> Or(b, 2)] ELSE [v |-> p.v, e2 |-> p.e2, d |-> 0]
NanFlags(p, thr) == IF p.d >= thr THEN [v |-> NaNV, e2 |-> NaNV, d |-> p.d] ELSE p
FlagNans(p, val) == IF p.v = NaNV THEN [v |-> p.v, e2 |-> p.e2, d |-> Or(p.d, val)] ELSE p
=============================================================================
