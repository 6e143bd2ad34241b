------------------------------ MODULE GeomOps ------------------------------
(* Detector geometry: a frame type is a record                               *)
(*   [R, C,  image, prescan, par, ser : regions,  st, end]                   *)
(* a region is [r, c, h, w] (first row, first column, rows, columns), all    *)
(* 0-based; st..end-1 are the detector columns of the reliable prescan.      *)
EXTENDS Integers, Sequences, FiniteSets

Cells(g) == (0..(g.R - 1)) \X (0..(g.C - 1))
In(x, q) == x[1] >= q.r /\ x[1] < q.r + q.h /\ x[2] >= q.c /\ x[2] < q.c + q.w
CellsOf(g, q) == {x \in Cells(g) : In(x, q)}
Fits(g, q) == q.r >= 0 /\ q.c >= 0 /\ q.h > 0 /\ q.w > 0 /\ q.r + q.h <= g.R /\ q.c + q.w <= g.C

Contains(a, b) == a.r <= b.r /\ a.c <= b.c /\ a.r + a.h >= b.r + b.h /\ a.c + a.w >= b.c + b.w
Disjoint(a, b) == a.r + a.h <= b.r \/ b.r + b.h <= a.r \/ a.c + a.w <= b.c \/ b.c + b.w <= a.c

\* the imaging area: everything that is not prescan, serial or parallel overscan
Imaging(g) ==
  [r |-> IF g.par.r < g.image.r THEN g.par.r + g.par.h ELSE 0,
   h |-> g.R - g.par.h,
   c |-> (IF g.prescan.c < g.image.c THEN g.prescan.w ELSE 0) + (IF g.ser.c < g.image.c THEN g.ser.w ELSE 0),
   w |-> g.C - g.prescan.w - g.ser.w]

\* a well-formed frame type
WellFormed(g) ==
  /\ \A q \in {g.image, g.prescan, g.par, g.ser} : Fits(g, q)
  /\ Disjoint(g.image, g.prescan) /\ Disjoint(g.image, g.par) /\ Disjoint(g.image, g.ser)
  /\ Disjoint(g.prescan, g.ser)
  /\ g.prescan.r = 0 /\ g.prescan.h = g.R
  /\ g.prescan.c <= g.st /\ g.st < g.end /\ g.end <= g.prescan.c + g.prescan.w

\* the area a bias subtraction returns
Area(g, mode) == CASE mode = "full" -> [r |-> 0, c |-> 0, h |-> g.R, w |-> g.C]
                   [] mode = "image" -> g.image
                   [] mode = "imaging" -> Imaging(g)

\* ------------------------------------------------------ order statistics
Ordered(s) == LET RECURSIVE Ins(_, _), Srt(_)
                  Ins(x, o) == IF o = <<>> THEN <<x>> ELSE IF x <= Head(o) THEN <<x>> \o o ELSE <<Head(o)>> \o Ins(x, Tail(o))
                  Srt(u) == IF u = <<>> THEN <<>> ELSE Ins(Head(u), Srt(Tail(u)))
              IN Srt(s)
\* twice the median
Median2(s) == LET o == Ordered(s)
                  n == Len(o) IN
              IF n % 2 = 1 THEN 2 * o[(n + 1) \div 2] ELSE o[n \div 2] + o[n \div 2 + 1]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumSq(s) == Sum([i \in DOMAIN s |-> s[i] * s[i]])
\* n^2 times the (population) variance
VarN2(s) == Len(s) * SumSq(s) - Sum(s) * Sum(s)
=============================================================================
