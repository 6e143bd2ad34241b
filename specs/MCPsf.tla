-------------------------------- MODULE MCPsf --------------------------------
(* Lemmas about the preparation: every frame is science, reference or neither;   *)
(* the chosen mode is one the frames allow; recentring puts the star on the        *)
(* centre, moves no pixel relative to it and is idempotent; cropping and            *)
(* recentring commute up to the border; hidden pixels stay hidden.                   *)
EXTENDS PsfOps
CONSTANTS N, W, H
VARIABLES step
Init == step = 0
Next == step < 1 /\ step' = step + 1
Spec == Init /\ [][Next]_step
Marks == UNION {[1..n -> 0..2] : n \in 0..N}
Fr(m) == [i \in DOMAIN m |-> [ref |-> m[i], id |-> i]]
Partition == \A m \in Marks : LET fr == Fr(m) s == Science(fr, FALSE) r == References(fr, FALSE, <<>>) IN
             /\ Len(s) + Len(r) = Cardinality({i \in DOMAIN m : m[i] # 2})
             /\ \A i, j \in DOMAIN s : i < j => s[i].id < s[j].id
             /\ Science(fr, TRUE) = fr
ModeOk == \A told \in Modes \cup {""}, s \in 1..N, r \in 0..N : LET m == ModeFor(told, s, r) IN
          m \in Modes /\ (told # "" => m = told) /\ (told = "" => ((m = "ADI") <=> (r = 0)) /\ ((m = "RDI") => s = 1))
F(sx, sy, d) == [ref |-> 0, w |-> W, h |-> H, px |-> [i \in 1..(W * H) |-> i], dq |-> [i \in 1..(W * H) |-> IF i \in d THEN 4 ELSE 0], sx |-> sx, sy |-> sy]
Frames == {F(sx, sy, d) : sx \in 0..(2 * W - 2), sy \in 0..(2 * H - 2), d \in {{}, {1}, {W + 2, W * H}}}
Good == {f \in Frames : Whole(f)}
Centred == \A f \in Good : LET g == Recentred(f) IN
           /\ OffX(g) = 0 /\ OffY(g) = 0 /\ Recentred(g) = g
           /\ \A x \in 0..(W - 1), y \in 0..(H - 1) : LET v == g.px[Idx(g, x, y)] IN
                 v # Blank => LET ox == (v - 1) % W oy == (v - 1) \div W IN 2 * ox - f.sx = 2 * x - g.sx /\ 2 * oy - f.sy = 2 * y - g.sy
HiddenStays == \A f \in Good : \A v \in {f.px[i] : i \in {j \in DOMAIN f.dq : f.dq[j] > 0}} : \A i \in DOMAIN f.px : Handed(f, 0).px[i] # v
Commute == \A f \in Good : \A c \in {2, 4} : CutFits(f, c, c) /\ f.sx % 2 = 1 /\ f.sy % 2 = 1 =>
           /\ Handed(f, c).px = Window(Handed(f, 0), CutX0(Recentred(f), c), CutY0(Recentred(f), c), c, c).px
           /\ OffX(Cut(f, c, c)) = 0 /\ OffY(Cut(f, c, c)) = 0
Turned == \A s \in 1..3, k \in 0..7 : LET p == Place(s, k) q == Place(s, k + 1) IN q.x = -p.y /\ q.y = p.x
Metric == \A s \in 1..4, u \in 1..4, i, j \in 0..11 : LET a == [s |-> s, pa |-> 30 * i] b == [s |-> u, pa |-> 30 * j] IN Apart2(a, b) = Apart2(b, a) /\ Apart2(a, b) >= 1000 * (s - u) * (s - u) /\ (Apart2(a, b) = 0 <=> a = b)
=============================================================================
