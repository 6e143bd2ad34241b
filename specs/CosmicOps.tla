------------------------------ MODULE CosmicOps ------------------------------
(* Saturated plateaus in a detector row and the pixels they invalidate.         *)
(* row: sequence of values; sat, plat: thresholds (same scale), plat <= sat;     *)
(* n: minimum plateau length.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clip(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i

\* ---- plateaus every implementation has to find: maximal runs >= plat that contain n consecutive pixels >= sat
IsHead(row, plat, h) == row[h] >= plat /\ (h = 1 \/ row[h - 1] < plat)
RunEnd(row, plat, h) == CHOOSE e \in h..Len(row) : (\A i \in h..e : row[i] >= plat) /\ (e = Len(row) \/ row[e + 1] < plat)
MustHeads(row, sat, plat, n) ==
  {h \in DOMAIN row : /\ IsHead(row, plat, h)
                      /\ \E s \in h..RunEnd(row, plat, h) :
                            s + n - 1 <= RunEnd(row, plat, h) /\ \A i \in s..(s + n - 1) : row[i] >= sat}

\* ---- heads the running-median search reports: a window of n+1 pixels (edge values repeated) whose upper median is saturated
Window(row, i, w) == [k \in 1..w |-> row[Clip(i - (w \div 2) + k - 1, 1, Len(row))]]
Hits(row, sat, n) == LET w == n + 1 IN
  {i \in DOMAIN row : Cardinality({k \in 1..w : Window(row, i, w)[k] >= sat}) >= w - (w \div 2)}
RECURSIVE Walk(_, _, _)
Walk(row, plat, i) == IF row[i] < plat THEN i + 1 ELSE IF i = 1 THEN 1 ELSE Walk(row, plat, i - 1)
MayHeads(row, sat, plat, n) == {Walk(row, plat, i) : i \in Hits(row, sat, n)}

\* ---- pixels invalidated by a head in row r, column h of an R x C frame whose image is rows r0..r1, columns c0..c1
\* (wrap: the tail continues on the next row, `over` pixels of it at the end)
TailPix(r, h, n, tail, C, wrap, less) ==
  LET last == h + n + tail IN
  {<<r, c>> : c \in h..(IF last > C THEN C ELSE last)}
  \cup (IF wrap /\ last > C THEN {<<r + 1 + (k - 1) \div C, 1 + ((k - 1) % C)>> : k \in 1..(last - C - less)} ELSE {})
Box(r, h, b, r0, r1, c0, c1) ==
  {<<x, y>> : x \in (IF r - b < r0 THEN r0 ELSE r - b)..(IF r + b > r1 THEN r1 ELSE r + b),
              y \in (IF h - b < c0 THEN c0 ELSE h - b)..(IF h + b > c1 THEN c1 ELSE h + b)}

Footprint(rows, sat, plat, n, tail, b, r0, r1, c0, c1, wrap, less, Heads(_, _, _, _)) ==
  UNION {UNION {TailPix(r, h, n, tail, Len(rows[1]), wrap, less) \cup Box(r, h, b, r0, r1, c0, c1)
                  : h \in {x \in Heads(rows[r], sat, plat, n) : c0 <= x /\ x <= c1}}
           : r \in r0..(IF r1 > Len(rows) THEN Len(rows) ELSE r1)}

\* saturation limit of a frame: the smaller of image well times gain and gain register well, both x2^k scaled alike
SatLimit(pp, em, gain) == IF pp * gain < em THEN pp * gain ELSE em
=============================================================================
