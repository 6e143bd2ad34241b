-------------------------------- MODULE PsfOps --------------------------------
(***************************************************************************)
(* PSF subtraction: which frames are science and reference, which mode is   *)
(* used, what the subtraction is handed, and what comes back.               *)
(* A frame is [ref |-> mark, w, h |-> size, px, dq |-> row by row,          *)
(* sx, sy |-> star position in half pixels].  Blank stands for NaN.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Blank == -1000000007
Modes == {"ADI", "RDI", "ADI+RDI"}
Marked(fr, m) == SelectSeq(fr, LAMBDA f : f.ref = m)
Science(fr, given) == IF given THEN fr ELSE Marked(fr, 0)
References(fr, given, refs) == IF given THEN refs ELSE Marked(fr, 1)
ModeFor(told, nsci, nref) == IF told # "" THEN told ELSE IF nref = 0 THEN "ADI" ELSE IF nsci = 1 THEN "RDI" ELSE "ADI+RDI"
Idx(f, x, y) == y * f.w + x + 1
\* flagged pixels are hidden
Hidden(f) == [f EXCEPT !.px = [i \in DOMAIN f.px |-> IF f.dq[i] > 0 THEN Blank ELSE f.px[i]]]
\* twice the offset of the star from the array's centre
OffX(f) == f.sx - (f.w - 1)
OffY(f) == f.sy - (f.h - 1)
Whole(f) == OffX(f) % 2 = 0 /\ OffY(f) % 2 = 0
Window(f, x0, y0, w, h) ==
   LET Src(i) == [x |-> x0 + ((i - 1) % w), y |-> y0 + ((i - 1) \div w)]
       In(p) == p.x >= 0 /\ p.x < f.w /\ p.y >= 0 /\ p.y < f.h
       Take(s, i, out) == LET p == Src(i) IN IF In(p) THEN s[Idx(f, p.x, p.y)] ELSE out IN
   [f EXCEPT !.w = w, !.h = h, !.px = [i \in 1..(w * h) |-> Take(f.px, i, Blank)], !.dq = [i \in 1..(w * h) |-> Take(f.dq, i, 0)],
             !.sx = f.sx - 2 * x0, !.sy = f.sy - 2 * y0]
\* the star put on the array's centre
Recentred(f) == Window(f, OffX(f) \div 2, OffY(f) \div 2, f.w, f.h)
\* a window of even size centred on a star between pixels
CutX0(f, w) == ((f.sx + 1) \div 2) - (w \div 2)
CutY0(f, h) == ((f.sy + 1) \div 2) - (h \div 2)
CutFits(f, w, h) == CutX0(f, w) >= 0 /\ CutY0(f, h) >= 0 /\ CutX0(f, w) + w <= f.w /\ CutY0(f, h) + h <= f.h
Cut(f, w, h) == Window(f, CutX0(f, w), CutY0(f, h), w, h)
Prepared(f, crop) == IF crop = 0 THEN f ELSE Cut(f, crop, crop)
Handed(f, crop) == Recentred(Hidden(Prepared(f, crop)))
\* where a source at separation s (pixels) and a position angle of k quarter turns (from up, counterclockwise) is
Place(s, k) == CASE k % 4 = 0 -> [x |-> 0, y |-> s] [] k % 4 = 1 -> [x |-> -s, y |-> 0] [] k % 4 = 2 -> [x |-> 0, y |-> -s] [] OTHER -> [x |-> s, y |-> 0]
\* twice the cosine times 1000 of a multiple of 30 degrees
Cos2(d) == LET m == d % 360 IN CASE m = 0 -> 2000 [] m \in {30, 330} -> 1732 [] m \in {60, 300} -> 1000 [] m \in {90, 270} -> 0 [] m \in {120, 240} -> -1000 [] m \in {150, 210} -> -1732 [] m = 180 -> -2000
\* squared distance (x1000) of two sources given by separation and angle
Apart2(a, b) == 1000 * (a.s * a.s + b.s * b.s) - a.s * b.s * Cos2(a.pa - b.pa)
\* the angles used at the k-th separation spiral outwards
Turn(npas, k) == (k - 1) * (360 \div (3 * npas))
=============================================================================
