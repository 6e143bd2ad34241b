------------------------------- MODULE PsfTrace -------------------------------
EXTENDS TraceBase, PsfOps, CtOps
\* ---- preparation, mode, hand-over and result (subtraction itself replaced by a stand-in that records and answers)
Sci(e) == Science(e.fr, e.given)
Ref(e) == References(e.fr, e.given, e.refs)
Told(e) == e.told \in Modes \cup {""}
Crops(e) == e.crop = 0 \/ \A f \in ToSet(Sci(e) \o Ref(e)) : CutFits(f, e.crop, e.crop)
Wrong(e) == e.wrong.what # "" /\ (e.given \/ e.fr[e.wrong.i].ref = 0) /\ (e.wrong.what = "scale" => Len(Sci(e)) >= 2)
MustRaise(e) == Sci(e) = <<>> \/ ~Told(e) \/ ~Crops(e) \/ Wrong(e) \/ e.core = "nocal"
MayRaise(e) == MustRaise(e) \/ (e.told \in {"RDI", "ADI+RDI"} /\ Ref(e) = <<>>)
Px(fr, crop) == [i \in DOMAIN fr |-> Handed(fr[i], crop).px]
CurveOk(k) == LET cen == [x |-> k.star.x + 4 * k.off.x + 2, y |-> k.star.y + 4 * k.off.y + 2] IN
              Len(k.out) = Len(k.seps) /\ \A j \in DOMAIN k.seps : k.out[j].sep = k.seps[j] /\ \E i \in NearInSep(k.pts, cen, k.seps[j]) : k.ct[i] = k.out[j].ct
PrepFails(e) ==
   IF e.exc # "" THEN Clause("K11_Works", MayRaise(e))
   ELSE IF MustRaise(e) THEN {"K11_Rejects"}
   ELSE LET s == Sci(e) r == Ref(e) m == ModeFor(e.told, Len(s), Len(r)) h == [i \in DOMAIN s |-> Prepared(s[i], e.crop)] IN
        Clause("K11_Once", e.calls = 1) \cup (IF e.calls # 1 THEN {} ELSE
        Clause("K11_Mode", e.call.mode = m /\ e.out.alg = m)
        \cup Clause("K11_Science", e.call.input = Px(s, e.crop))
        \cup Clause("K11_References", m = "ADI" \/ e.call.lib = Px(r, e.crop))
        \cup Clause("K11_Angles", e.call.pas = [i \in DOMAIN s |-> s[i].roll] /\ e.call.tags = [i \in DOMAIN s |-> s[i].tag])
        \cup Clause("K11_Centre", \A i \in DOMAIN s : e.call.cen[i] = [x |-> h[i].w - 1, y |-> h[i].h - 1])
        \cup Clause("K11_Settings", e.call.basis = e.basis /\ e.call.annuli = e.annuli /\ e.call.subs = e.subs /\ e.call.move = e.move /\ e.call.prefix = e.prefix /\ e.call.dir = m)
        \cup Clause("K11_OneFrame", e.out.n = 1 /\ e.out.shape = <<Len(e.basis), h[1].h, h[1].w>>)
        \cup Clause("K11_Result", e.out.px = e.cube /\ e.out.modes = e.basis)
        \cup Clause("K11_Flagged", e.out.dq = [i \in DOMAIN e.cube |-> IF e.cube[i] = Blank THEN 1 ELSE 0]
                                   /\ e.out.err = [i \in DOMAIN e.cube |-> IF e.cube[i] = Blank THEN Blank ELSE 0])
        \cup Clause("K11_Star", e.out.star = [x |-> h[1].w - 1, y |-> h[1].h - 1])
        \cup Clause("K11_Identity", e.out.tag = s[1].tag /\ e.out.name = s[Len(s)].tag /\ e.out.hist)
        \cup Clause("K11_Curve", (e.core = "yes" => CurveOk(e.curve)) /\ (e.core = "no" => e.curve.out = <<>>))
        \cup Clause("K11_Kept", e.kept))
\* ---- the real subtraction: a companion comes out where it is on the sky
RealFails(e) == Clause("K11_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   LET p == Place(e.sep, e.pa) IN
   Clause("K11_Slices", Len(e.peaks) = Len(e.basis))
   \cup Clause("K11_NorthUp", \A k \in DOMAIN e.peaks : AbsT(e.peaks[k].x - p.x) <= 1 /\ AbsT(e.peaks[k].y - p.y) <= 1)
   \cup Clause("K11_Kept", e.kept))
\* ---- throughput of the subtraction: a stand-in that passes a known share (thousandths) of everything at a separation
Share(g, s) == IF s < 13 THEN g.near ELSE g.far
Close == 70893
\* from the inner to the outer working angle (140 and 450 mas at 21.8 mas a pixel) in steps of three resolution elements
DefaultSeps == <<6422, 14842>>
Skipped(e, k, j) == \E i \in DOMAIN e.cands : Apart2([s |-> e.seps[k], pa |-> (e.pas[j] + Turn(Len(e.pas), k)) % 360], e.cands[i]) < Close
Left(e, k) == {j \in DOMAIN e.pas : ~Skipped(e, k, j)}
Within(a, b, pc) == a > -20000000 /\ AbsT(a - b) * 100 <= pc * AbsT(b)
ThrFails(e) ==
   IF e.exc # "" THEN Clause("K11_Works", \A k \in DOMAIN e.seps : Left(e, k) = {})
   ELSE Clause("K11_Separations", e.sepsout = (IF e.dflt THEN DefaultSeps ELSE [k \in DOMAIN e.seps |-> 1000 * e.seps[k]]) /\ Len(e.thr) = Len(e.basis))
   \cup Clause("K11_Throughput", \A b \in DOMAIN e.thr : Len(e.thr[b]) = Len(e.seps) /\ \A k \in DOMAIN e.seps :
            IF Left(e, k) = {} THEN e.thr[b][k].t = NAN ELSE e.thr[b][k].t # NAN /\ AbsT(e.thr[b][k].t - Share(e.gain[b], e.seps[k])) * 100 <= (5 * Share(e.gain[b], e.seps[k])) + 2000 /\ Within(e.thr[b][k].w, 1000, 5))
   \cup Clause("K11_Injected", \A i \in DOMAIN e.inj : LET v == e.inj[i] want == Share(e.gain[v.b], e.seps[v.k]) IN
            IF Skipped(e, v.k, v.j) THEN v.v < want \div 10 ELSE IF v.exact THEN Within(v.v, want, 6) ELSE v.v * 2 > want /\ v.v < want + want \div 10)
   \cup Clause("K11_SameSettings", Len(e.calls) = 1 + Len(e.basis) /\ ~e.calls[1].fake /\ e.calls[1].basis = e.basis
            /\ \A i \in 2..Len(e.calls) : e.calls[i].fake /\ e.calls[i].set = e.calls[1].set /\ e.calls[i].basis = <<e.basis[i - 1]>>)
   \cup Clause("K11_CurveToo", e.ctseps = (IF e.core THEN e.sepsout ELSE <<>>))
   \cup Clause("K11_Kept", e.kept)
\* ---- noise in an annulus (quarter pixels)
NoiseFails(e) == Clause("K11_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE
   LET D(i, x, y) == Sq(4 * ((i - 1) % e.w) - x) + Sq(4 * ((i - 1) \div e.w) - y)
       C(k) == LET p == Place(e.cands[k].s, e.cands[k].k) IN [x |-> e.sx + p.x, y |-> e.sy + p.y]
       Tie == \E i \in 1..(e.w * e.h), k \in DOMAIN e.cands : D(i, C(k).x, C(k).y) = Sq(5 * e.hw)
       Ring(s) == {i \in 1..(e.w * e.h) : LET d == D(i, e.sx, e.sy) IN d < Sq(s + e.hw) /\ (s < e.hw \/ d > Sq(s - e.hw)) /\ \A k \in DOMAIN e.cands : D(i, C(k).x, C(k).y) > Sq(5 * e.hw)}
       Got(s, m) == LET r == {i \in Ring(s) : e.px[m][i] # Blank}
                        q == SelectSeq([i \in 1..(e.w * e.h) |-> i], LAMBDA i : i \in r)
                    IN [i \in DOMAIN q |-> e.px[m][q[i]]]
       Right(v, s, m) == LET x == Got(s, m) n == Len(x) S == SumSeq(x) S2 == SumSeq([i \in DOMAIN x |-> x[i] * x[i]]) IN
                         IF n = 0 THEN v = NAN ELSE Near(v * n * n, 1000 * ((n * S2) - (S * S)), n * n)
       picked == IF e.pick < 0 THEN [m \in DOMAIN e.px |-> m] ELSE <<e.pick + 1>> IN
   IF Tie THEN {} ELSE
   Clause("K11_Noise", Len(e.out) = Len(e.seps) /\ \A k \in DOMAIN e.seps : Len(e.out[k]) = Len(picked) /\ \A m \in DOMAIN picked : Right(e.out[k][m], e.seps[k], picked[m]))
   \cup Clause("K11_Kept", e.kept))
TheFails(s, e) == CASE e.op = "prep" -> PrepFails(e) [] e.op = "real" -> RealFails(e) [] e.op = "thr" -> ThrFails(e) [] e.op = "noise" -> NoiseFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
