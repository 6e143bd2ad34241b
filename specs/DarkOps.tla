------------------------------ MODULE DarkOps ------------------------------
(* Averaging masked stacks, traditional and synthesized darks, noise maps and   *)
(* bad pixels, in integers: a mean is given by its sum and count, a square       *)
(* root by its square.  Images are flat sequences, row by row.                   *)
EXTENDS EmGainOps, FiniteSets, TLC
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumF(SubSeq(s, 2, Len(s)))
Abs(x) == IF x < 0 THEN -x ELSE x
Near2(a, b, tol) == Abs(a - b) <= tol
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x

\* --- one pixel of a stack: samples x[k] with mask m[k] # 0 -----------------------------------------------------------
Good(x, m) == SelectSeq([k \in DOMAIN x |-> [v |-> x[k], m |-> m[k]]], LAMBDA r : r.m = 0)
Num(x, m) == Len(Good(x, m))
Sum(x, m) == SumF([k \in DOMAIN Good(x, m) |-> Good(x, m)[k].v])
Sum2(x, m) == SumF([k \in DOMAIN Good(x, m) |-> Good(x, m)[k].v * Good(x, m)[k].v])
\* n^3 times the squared error of a traditional dark's pixel: mean squared error plus variance of the mean
TradErr3(x, e, m) == LET n == Num(x, m) IN n * n * Sum2(e, m) + n * Sum2(x, m) - Sum(x, m) * Sum(x, m)
TradFlag(n, total) == IF n = 0 THEN {1, 257} ELSE IF 2 * n < total THEN {256} ELSE {0}

\* --- image area of a frame ---------------------------------------------------------------------------------------------
\* a = [rows, cols, r0, c0] inside a frame of fc columns
CutA(img, fc, a) == [i \in 1..(a.rows * a.cols) |-> img[(a.r0 + (i - 1) \div a.cols) * fc + a.c0 + ((i - 1) % a.cols) + 1]]
CutOrFull(img, fc, a, full) == IF full THEN img ELSE CutA(img, fc, a)
RowOf(i, fc) == (i - 1) \div fc

\* --- noise model: one pixel with fixed pattern f, dark current d, clock-induced charge c --------------------------------
Model(f, d, c, g, t) == f + g * (t * d + c)
\* synthesized dark times 4 g, for exposure time t4 / 4, and 16 g^2 times its squared error
Synth4(f, d, c, g, t4) == 4 * f + g * (t4 * d + 4 * c)
SynthErr16(fe, de, ce, g, t4) == 16 * fe * fe + g * g * (t4 * t4 * de * de + 16 * ce * ce)
\* a plan is a sequence of [g, t]; it determines the model if no other pixel contents give the same values in every stack:
\* some three stacks have linearly independent rows (1, g, g t)
Det3(a, b, c) == (b.g - a.g) * (c.g * c.t - a.g * a.t) - (c.g - a.g) * (b.g * b.t - a.g * a.t)
Determined(plan) == \E i, j, k \in DOMAIN plan : Det3(plan[i], plan[j], plan[k]) # 0
\* plans the calibration promises to accept
Distinct(plan) == \A i, j \in DOMAIN plan : i # j => plan[i] # plan[j]
PlanOk(plan) == /\ Len(plan) > 3 /\ Distinct(plan)
                /\ Cardinality({plan[i].g : i \in DOMAIN plan}) >= 2 /\ Cardinality({plan[i].t : i \in DOMAIN plan}) >= 2
                /\ \A i \in DOMAIN plan : plan[i].g >= 1 /\ plan[i].t >= 0

\* --- bad pixels ------------------------------------------------------------------------------------------------------------
\* hot: x > mean + (kn/kd) std; all times the pixel count.  "tie" where rounding decides
HotOf(img, kn, kd) ==
  LET n == Len(img) S == SumF(img) V == n * SumF([i \in DOMAIN img |-> img[i] * img[i]]) - S * S IN
  [i \in DOMAIN img |-> LET l == kd * (n * img[i] - S) IN
     IF l < 0 THEN "no" ELSE IF l = 0 /\ V = 0 THEN "no" ELSE IF l * l > kn * kn * V THEN "yes" ELSE IF l * l = kn * kn * V THEN "tie" ELSE "no"]
\* box of width w around 0-based p: p - w div 2 .. p - w div 2 + w - 1, clipped
Box(p, w, n) == {q \in 0..(n - 1) : q >= p - (w \div 2) /\ q <= p - (w \div 2) + w - 1}
RECURSIVE SumSet(_, _)
SumSet(img, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN img[x] + SumSet(img, S \ {x})
DeadOf(img, rows, cols, fn, fd, w) ==
  [i \in DOMAIN img |->
     LET r == (i - 1) \div cols c == (i - 1) % cols
         B == {rr * cols + cc + 1 : rr \in Box(r, w, rows), cc \in Box(c, w, cols)}
         L == img[i] * fd * Cardinality(B) T == fn * SumSet(img, B) IN
     IF L < T THEN "yes" ELSE IF L = T THEN "tie" ELSE "no"]
BadWords(hot, dead) == {h + d : h \in (IF hot = "yes" THEN {8} ELSE IF hot = "no" THEN {0} ELSE {0, 8}),
                                d \in (IF dead = "yes" THEN {4} ELSE IF dead = "no" THEN {0} ELSE {0, 4})}
=============================================================================
