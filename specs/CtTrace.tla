------------------------------- MODULE CtTrace -------------------------------
EXTENDS TraceBase, CtOps
Q4(p) == [x |-> 4 * p.x, y |-> 4 * p.y]
Go(s, k) == CASE k % 4 = 0 -> [x |-> 0, y |-> s] [] k % 4 = 1 -> [x |-> -s, y |-> 0] [] k % 4 = 2 -> [x |-> 0, y |-> -s] [] OTHER -> [x |-> s, y |-> 0]
Subseq(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
\* ---- sep: all in quarter pixels
SepFails(e) == Clause("K09_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   LET cen == [x |-> e.star.x + 4 * e.off.x + 2, y |-> e.star.y + 4 * e.off.y + 2] IN
   Clause("K09_Curve", Len(e.out) = Len(e.seps) /\ \A k \in DOMAIN e.seps : e.out[k].sep = e.seps[k] /\ \E i \in NearInSep(e.pts, cen, e.seps[k]) : e.ct[i] = e.out[k].ct)
   \cup Clause("K09_Kept", e.kept))
\* ---- near and injection
NearFails(e) == Clause("K09_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   LET d == Go(e.sep, e.quarter) at == [x |-> 4 * (e.star.x + e.off.x + d.x) + 2, y |-> 4 * (e.star.y + e.off.y + d.y) + 2] N == NearInPlace(e.pts, at) IN
   Clause("K09_Nearest", e.near \in N)
   \cup Clause("K09_Injected", e.used \in N /\ e.peak = e.amp /\ e.where = [x |-> e.star.x + d.x, y |-> e.star.y + d.y] /\ e.centre = [x |-> e.star.x + d.x, y |-> e.star.y + d.y])
   \cup Clause("K09_OnlyThere", e.elsewhere)
   \cup Clause("K09_Kept", e.kept))
\* ---- the mask's centre: matrices in 1/64, mechanisms in 1/4, positions in 1/256
FpmFails(e) == Clause("K09_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   Clause("K09_Mask", \A k \in 1..2 : e.out[k] = Moved([x |-> 256 * e.star.x, y |-> 256 * e.star.y], [x |-> 256 * e.off.x, y |-> 256 * e.off.y], e.m[k], e.ct[k], e.cor[k]))
   \cup Clause("K09_Kept", e.kept))
\* ---- interpolation: u in eighths of a pixel (or of an octave), azimuths in eighths of a degree
UOf(e, i) == e.u[i]
Low(e) == CHOOSE v \in ToSet(e.u) : \A x \in ToSet(e.u) : v <= x
High(e) == CHOOSE v \in ToSet(e.u) : \A x \in ToSet(e.u) : v >= x
AzLow(e) == e.az0
Range(e) == e.range
Val(e, u, f) == Affine(e.f, u - Low(e), f)
MustKeep(e, t) == t.point \/ (t.u > Low(e) /\ t.u < High(e) /\ Fold(t.az, e.az0, e.range) # 0)
MayKeep(e, t) == t.point \/ (t.u >= Low(e) /\ t.u <= High(e))
ValOk(e, t, v) == LET f == Fold(t.az, e.az0, e.range) IN
                  \/ Near(v, Val(e, t.u, f), 4)
                  \/ f = 0 /\ Near(v, Val(e, t.u, e.range), 4)
InterpFails(e) ==
   LET must == {i \in DOMAIN e.t : MustKeep(e, e.t[i])}
       may == {i \in DOMAIN e.t : MayKeep(e, e.t[i])} IN
   IF e.exc # "" THEN Clause("K09_Rejects", e.exc = "ValueError" /\ must = {})
   ELSE Clause("K09_Targets", Subseq([k \in DOMAIN e.out |-> e.out[k].i]) /\ must \subseteq {e.out[k].i : k \in DOMAIN e.out} /\ {e.out[k].i : k \in DOMAIN e.out} \subseteq may /\ e.out # <<>>)
        \cup (IF {e.out[k].i : k \in DOMAIN e.out} \subseteq DOMAIN e.t THEN Clause("K09_Interpolated", \A k \in DOMAIN e.out : ValOk(e, e.t[e.out[k].i], e.out[k].v)) ELSE {})
        \cup Clause("K09_Kept", e.kept)
        \cup Clause("K09_MapRows", e.map.rows \in {"none", "same"})
        \cup Clause("K09_MapFile", e.map.file = (IF e.map.asked THEN "same" ELSE "none"))
GridFails(e) ==
   LET pts == [k \in 1..(e.nx * e.ny) |-> [x |-> e.x0 + ((k - 1) % e.nx) * e.dx, y |-> e.y0 + ((k - 1) \div e.nx) * e.dy]]
       R2(p) == Sq(p.x) + Sq(p.y)
       ids == [k \in DOMAIN e.rows |-> e.rows[k]] IN
   Clause("K09_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   Clause("K09_Grid", Len(pts) >= 1 /\ \A p \in ToSet(pts) : (R2(p) > Sq(e.rmin) /\ R2(p) < Sq(e.rmax) /\ p.y # 0 /\ p.x # 0) => p \in ToSet(ids))
   \cup Clause("K09_GridInside", \A k \in DOMAIN ids : ids[k] \in ToSet(pts) /\ R2(ids[k]) >= Sq(e.rmin) /\ R2(ids[k]) <= Sq(e.rmax))
   \cup Clause("K09_GridOnce", \A i, j \in DOMAIN ids : i # j => ids[i] # ids[j]))
\* ---- nearest PSF: radii in tenths of a pixel, azimuths in eighths of a degree
RingOf(e, r) == CHOOSE v \in ToSet(e.r) : \A w \in ToSet(e.r) : AbsT(r - v) <= AbsT(r - w)
OnRing(e, t) == {i \in DOMAIN e.r : e.r[i] = RingOf(e, t.r)}
Closest(e, t) == {i \in OnRing(e, t) : \A j \in OnRing(e, t) : AbsT(e.az[i] - t.az) <= AbsT(e.az[j] - t.az)}
RMin(e) == CHOOSE v \in ToSet(e.r) : \A x \in ToSet(e.r) : v <= x
RMax(e) == CHOOSE v \in ToSet(e.r) : \A x \in ToSet(e.r) : v >= x
PsfMust(e, t) == t.r > RMin(e) /\ t.r < RMax(e)
PsfMay(e, t) == t.r >= RMin(e) /\ t.r <= RMax(e)
Twice(e, S) == LET L == {e.label[i] : i \in S} one == CHOOSE l \in L : TRUE IN
               IF Cardinality(S) = 1 THEN 2 * one ELSE LET two == CHOOSE l \in L : l # one IN one + two
PsfFails(e) ==
   LET must == {i \in DOMAIN e.t : PsfMust(e, e.t[i])}
       may == {i \in DOMAIN e.t : PsfMay(e, e.t[i])}
       got == {e.out[k].i : k \in DOMAIN e.out} IN
   IF e.exc # "" THEN Clause("K09_Rejects", e.exc = "ValueError" /\ must = {})
   ELSE Clause("K09_Targets", Subseq([k \in DOMAIN e.out |-> e.out[k].i]) /\ must \subseteq got /\ got \subseteq may /\ got # {})
        \cup (IF got \subseteq DOMAIN e.t THEN Clause("K09_PSF", \A k \in DOMAIN e.out : e.out[k].v = Twice(e, Closest(e, e.t[e.out[k].i]))) ELSE {})
        \cup Clause("K09_Kept", e.kept)
\* ---- making the calibration
MakeFails(e) ==
   LET off == OffAxis(e.fr) pup == Pupils(e.fr) legal == off # <<>> /\ pup # <<>> /\ e.onefilter IN
   IF e.exc # "" THEN Clause("K09_Makes", ~legal)
   ELSE IF ~legal THEN {"K09_MakeRejects"}
   ELSE IF Len(e.out) # Len(off) THEN {"K09_OnePerPsf"}
   ELSE Clause("K09_Located", \A k \in DOMAIN off : LET r == InRoi(off[k].px, e.roi) T == TotalOf(r) IN
                Near(e.out[k].cx * T, 1000 * MomentX(r), T) /\ Near(e.out[k].cy * T, 1000 * MomentY(r), T))
        \cup Clause("K09_Throughput", \A k \in DOMAIN off : e.out[k].ctn = Len(pup) * CoreSum(off[k].px))
        \cup Clause("K09_Cut", \A k \in DOMAIN off :
                LET r == InRoi(off[k].px, e.roi) T == TotalOf(r) n == HalfWindow(e.filter) IN
                \E zx \in Rounded(MomentX(r), T), zy \in Rounded(MomentY(r), T) :
                   LET Rel(p) == [x |-> p.x - zx + n, y |-> p.y - zy + n, v |-> p.v]
                       In(p) == AbsT(p.x - zx) <= n /\ AbsT(p.y - zy) <= n IN
                   /\ e.out[k].side = 2 * n + 1
                   /\ ToSet(e.out[k].px) = {Rel(p) : p \in {q \in ToSet(off[k].px) : q.v # 0 /\ In(q)}}
                   /\ ToSet(e.out[k].dq) = {Rel(p) : p \in {q \in ToSet(off[k].dq) : In(q)}})
        \cup Clause("K09_Mechanisms", <<e.fpam, e.fsam>> \in {<<e.offpam, e.offsam>>, <<e.firstpam, e.firstsam>>})
        \cup Clause("K09_Kept", e.kept)
TheFails(s, e) == CASE e.op = "sep" -> SepFails(e) [] e.op = "near" -> NearFails(e) [] e.op = "fpm" -> FpmFails(e) [] e.op = "interp" -> InterpFails(e)
                    [] e.op = "grid" -> GridFails(e) [] e.op = "psf" -> PsfFails(e) [] e.op = "make" -> MakeFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
