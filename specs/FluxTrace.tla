------------------------------- MODULE FluxTrace -------------------------------
EXTENDS TraceBase, FluxOps
Works(e, f) == Clause("K10_Works", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE f)
Max(a, b) == IF a > b THEN a ELSE b
\* a recorded r (scaled by z) against a ratio num/den
Small(a, b) == b = 0 \/ AbsT(a) <= 2000000000 \div b
Ratio(r, z, num, den, slack) == r # NAN /\ r # INEXACT /\ Small(r, den) /\ Near(r * den, z * num, Max(den, slack))
\* ---- counts to flux.  Factor fn/8, its error en/8, colour correction cc/4; recorded in 64ths, squared errors in 4096ths
ConvFails(e) == LET cc == IF e.cc = 0 THEN 4 ELSE e.cc
                    Val(v) == IF v = NAN THEN NAN ELSE (v * e.fn * 32) \div cc
                    Var(v, s) == IF v = NAN THEN NAN ELSE (1024 * ((s * s * e.fn * e.fn) + (v * v * e.en * e.en))) \div (cc * cc) IN
   Works(e, Clause("K10_Flux", e.out = [i \in DOMAIN e.px |-> Val(e.px[i])])
   \cup Clause("K10_FluxError", Len(e.var) = Len(e.px) /\ \A i \in DOMAIN e.px : LET w == Var(e.px[i], e.er[i]) IN IF w = NAN THEN e.var[i] = NAN ELSE Near(e.var[i], w, 4 + (w \div 50000)))
   \cup Clause("K10_Layers", ~e.track \/ e.layers = e.layersin + 1)
   \cup Clause("K10_Head", e.unit = "erg/(s*cm^2*AA)" /\ e.fac = e.fn)
   \cup Clause("K10_Kept", e.kept /\ e.dqkept))
\* ---- aperture photometry.  ph: diameter, parts, 1/encircled share (k), background per pixel (b) and whether it is taken off
S(e, j, rim) == LET f == e.fr[j] IN Net(f, f.pos, e.ph.r2, e.ph.s, rim, IF e.ph.sub THEN e.ph.b ELSE 0)
SumOf(e, rim) == AddUp([j \in DOMAIN e.fr |-> S(e, j, rim)])
Parts2(e) == e.ph.s * e.ph.s
FluxFails(e) == LET cc == IF e.cc = 0 THEN 4 ELSE e.cc
                    n == Len(e.fr)
                    d == 2 * n * cc * Parts2(e)
                    lo == SumOf(e, 0) hi == SumOf(e, 1)
                    s == (lo \div Parts2(e)) \div n
                    E2 == ApertureVar(e.fr[1], e.fr[1].pos, e.ph.r2, e.ph.s, 0) \div Parts2(e)
                    w == 4 * e.ph.k * e.ph.k * ((E2 * e.fn * e.fn) + (s * s * e.en * e.en)) IN
   Works(e, Clause("K10_Sum", e.flux # NAN /\ Small(e.flux, d) /\ e.flux * d >= (lo * e.ph.k * e.fn * 1000) - d /\ (e.flux - 1) * d <= hi * e.ph.k * e.fn * 1000)
   \cup Clause("K10_SumError", Small(e.err2, cc * cc) /\ Near(e.err2 * cc * cc, w, (w \div 20) + (8 * cc * cc) + (8 * e.ph.k * e.ph.k * (s + 1) * e.en * e.en) + (4 * e.ph.k * e.ph.k * e.fn * e.fn)))
   \cup Clause("K10_Back", e.back = IF e.ph.sub THEN e.ph.b ELSE 0)
   \cup Clause("K10_Magnitude", Small(e.mag, e.vega) /\ Near(e.mag * e.vega, e.flux, e.vega + (e.flux \div 1000) + 1) /\ (e.flux < 100000 \/ (Small(e.magerr, (e.flux \div 1000)) /\ Small(e.fluxerr \div 1000, 1086) /\ Near(e.magerr * (e.flux \div 1000), 1086 * (e.fluxerr \div 1000), (e.magerr + 1086 + e.flux \div 1000) + (11 * (e.fluxerr \div 1000))))))
   \cup Clause("K10_Same", e.same)
   \cup Clause("K10_Kept", e.kept))
GaussFails(e) == LET cc == IF e.cc = 0 THEN 4 ELSE e.cc w == (e.total * e.fn) \div (2 * cc) IN
   Works(e, Clause("K10_Fit", Near(e.flux, w, (w \div 50) + 5)) \cup Clause("K10_Factor", Near(e.fac, 1000, 20)) \cup Clause("K10_Back", e.back = e.b) \cup Clause("K10_Kept", e.kept))
\* ---- calibration factor
Stars == {"Vega", "TYC 4433-1800-1", "109 Vir", "UCAC3 313-62260"}
FcalFails(e) == LET bad == e.star \notin Stars \/ e.filter = "9Z" \/ e.how = "both"
                    f == e.fr[1]
                    a == S(e, 1, 0) b == S(e, 1, 1)
                    s == a \div Parts2(e)
                    E2 == ApertureVar(f, f.pos, e.ph.r2, e.ph.s, 0) \div Parts2(e) IN
   IF bad THEN Clause("K10_Rejects", e.exc # "") \cup Clause("K10_Kept", e.kept)
   ELSE Works(e, Clause("K10_Factor", \E r \in a..b : Small(e.fac, Max(1, r) * e.ph.k) /\ Near(e.fac * r * e.ph.k, 1000 * e.sed * Parts2(e), (2 * r * e.ph.k) + (e.sed * Parts2(e)) \div 50))
   \cup Clause("K10_FactorError", e.ph.r2 > 9 \/ s < 60 \/ (/\ Small(e.rel, s) /\ e.rel * s <= 44000 /\ Near(e.rel * e.rel * s * s, 1000000 * E2, ((2 * e.rel + 2) * s * s) + (2 * e.rel * e.rel * s) + 1000000 + (20000 * E2))))
   \cup Clause("K10_Names", e.ofilter = e.filter /\ e.ond = (IF e.fpam = "HOLE" THEN "ND0" ELSE e.fpam))
   \cup Clause("K10_Unit", e.unit = (IF e.how = "flux" THEN "erg/(s * cm^2 * AA)/(electron/s)" ELSE "erg/(s * cm^2)/(electron/s)"))
   \cup Clause("K10_Back", ~e.ph.sub \/ e.back = e.ph.b)
   \cup Clause("K10_Kept", e.kept))
\* ---- band integrals
BandFails(e) == LET l == [i \in DOMAIN e.tr |-> e.l0 + e.dl * (i - 1)]
                    b == BandFlux(e.tr, e.f, l) w == EffectiveWave(e.tr, e.f, l) p == PivotWave2(e.tr, l) i == Irradiance(e.tr, e.f, e.dl) k == ColorCor(e.tr, e.g, e.f, l, e.k) IN
   IF b[2] = 0 THEN {} ELSE
   Works(e, Clause("K10_BandFlux", Ratio(e.band, 1000, b[1], b[2], 0))
   \cup Clause("K10_Effective", Ratio(e.eff, 1000, w[1], w[2], 0))
   \cup Clause("K10_Pivot", Len(l) > 3 \/ Ratio(e.piv, 10, p[1], p[2], 0))
   \cup Clause("K10_Irradiance", Ratio(e.irr, 1000, i[1], i[2], 0))
   \cup Clause("K10_Color", Ratio(e.color, 100, k[1], k[2], 0)))
\* ---- reading a filter and a spectrum
CurveFails(e) == LET x == [j \in DOMAIN e.pts |-> e.pts[j].x]
                     in == SelectSeq([j \in DOMAIN x |-> j], LAMBDA j : x[j] >= 10 * e.w0 /\ x[j] <= 10 * (e.w0 + e.n - 1))
                     ix == [k \in DOMAIN in |-> x[in[k]]] iy == [k \in DOMAIN in |-> e.pts[in[k]].v] IN
   Works(e, Clause("K10_Curve", e.wave = [k \in 1..e.n |-> 10 * (e.w0 + k - 1)] /\ e.trans = e.tr)
   \cup Clause("K10_Spectrum", Len(ix) < 2 \/ \A k \in 1..e.n : LET at == 10 * (e.w0 + k - 1) IN
             (ix[1] <= at /\ at <= ix[Len(ix)]) => LET b == Between(ix, iy, at) IN Ratio(e.spec[k], 1000, b[1], b[2], 0)))
\* ---- magnitudes against Vega: a source of src/4*sf times the shape of a Vega of vega times the shape
MagFails(e) == LET bad == \/ e.odd = "star" /\ ~e.file
                          \/ e.n > 1 /\ ~e.single /\ e.odd \in {"filter", "target"} IN
   IF bad THEN Clause("K10_Rejects", e.exc # "") \cup Clause("K10_Kept", e.kept)
   ELSE Works(e, Clause("K10_Apparent", Len(e.mags) = (IF e.single THEN 1 ELSE e.n) /\ \A i \in DOMAIN e.mags : Small(e.mags[i], 4 * e.vega) /\ Near(e.mags[i] * 4 * e.vega, 1000 * e.src * e.sf, (8 * e.vega) + e.src * e.sf))
   \cup Clause("K10_Same", e.same)
   \cup Clause("K10_Kept", e.kept))
\* the zero point: the magnitude of a source that gives one count (recorded as a millionth of the flux ratio, i.e. 10^(-0.4 zp) * 10^6)
ZeroFails(e) == LET lo == S(e, 1, 0) hi == S(e, 1, 1) IN
   Works(e, Clause("K10_ZeroPoint", \E r \in lo..hi : LET d == 4 * e.vega * r * e.ph.k IN e.zp # NAN /\ Near(e.zp, (1000000 * e.src * Parts2(e)) \div d, 3 + e.zp \div 20))
   \cup Clause("K10_Kept", e.kept))
ColorFails(e) == Works(e, Clause("K10_Pivot", \A i \in DOMAIN e.lam : Near(e.lam[i], e.wantlam, 2))
   \cup Clause("K10_Color", \A i \in DOMAIN e.k : Near(e.k[i], e.wantk, 1) /\ (e.a = e.b => Near(e.k[i], 10000, 1)))
   \cup Clause("K10_Same", e.same)
   \cup Clause("K10_Kept", e.kept))
\* ---- optical density between calibrated positions (quarters of a pixel; values in 64ths)
PlaneFails(e) == LET xs == {e.pts[i].x : i \in DOMAIN e.pts} ys == {e.pts[i].y : i \in DOMAIN e.pts}
                     lo(s) == CHOOSE v \in s : \A u \in s : v <= u
                     hi(s) == CHOOSE v \in s : \A u \in s : v >= u
                     Out(q) == q.x < lo(xs) \/ q.x > hi(xs) \/ q.y < lo(ys) \/ q.y > hi(ys)
                     Rim1(q) == q.x \in {lo(xs), hi(xs)} \/ q.y \in {lo(ys), hi(ys)}
                     g == 4 * e.step
                     Corners(q) == {e.pts[i].v : i \in {k \in DOMAIN e.pts : AbsT(e.pts[k].x - q.x) < g /\ AbsT(e.pts[k].y - q.y) < g}}
                     Good(q, v) == IF Out(q) THEN v = NAN
                                   ELSE \/ Rim1(q) /\ v = NAN
                                        \/ /\ v # NAN
                                           /\ IF e.bumps = 0 THEN Near(v, Plane([a |-> 4 * e.m.a, b |-> e.m.b, c |-> e.m.c], q.x, q.y), 1)
                                              ELSE /\ \A i \in DOMAIN e.pts : (e.pts[i].x = q.x /\ e.pts[i].y = q.y) => Near(v, e.pts[i].v, 1)
                                                   /\ lo(Corners(q)) - 1 <= v /\ v <= hi(Corners(q)) + 1
                     at == [x |-> 4 * e.star.x + e.mat[1][1] * e.dh + e.mat[1][2] * e.dv, y |-> 4 * e.star.y + e.mat[2][1] * e.dh + e.mat[2][2] * e.dv] IN
   Works(e, Clause("K10_Density", \A i \in DOMAIN e.qs : Good(e.qs[i], e.own[i]) /\ Good(e.qs[i], e.free[i]))
   \cup Clause("K10_Together", e.many = e.free)
   \cup Clause("K10_Moved", Good(at, e.moved))
   \cup Clause("K10_Kept", e.kept))
\* ---- making the neutral-density calibration
NdFails(e) == LET nb == Len(e.bright)
                  Sum1(f) == Aperture(f, f.pos, e.r2, 1, 0)
                  Dims == [i \in DOMAIN e.dim |-> [c |-> e.sed[e.dim[i].star], s |-> Sum1(e.dim[i])]]
                  T(i, t) == LET b == [c |-> e.sed[e.bright[i].star], s |-> Sum1(e.bright[i])] q == Throughput(b, Dims) IN
                             Small(t, IF e.given THEN b.c ELSE 100 * q[2]) /\ IF e.given THEN Near(t * b.c, 1000 * b.s * e.k * e.fn, b.c + (5 * b.s * e.k * e.fn)) ELSE Near(t * q[2] * 100, q[1], (q[1] \div 100) + (q[2] * 100))
                  OfStar(k) == {i \in 1..nb : e.bright[i].star = k}
                  Unequal(a, b) == \E k \in 1..3 : \E i, j \in OfStar(k) : b * Sum1(e.bright[i]) >= a * Sum1(e.bright[j]) IN
   IF e.wrong # "" /\ nb > 1 THEN Clause("K10_Rejects", e.exc # "")
   ELSE Works(e, Clause("K10_Rows", Len(e.rows) = nb /\ \A i \in 1..nb : \E k \in DOMAIN e.rows : e.rows[k].x = e.bright[i].pos.x /\ e.rows[k].y = e.bright[i].pos.y /\ T(i, e.rows[k].t))
   \cup Clause("K10_Every", \A k \in DOMAIN e.rows : \E i \in 1..nb : e.rows[k].x = e.bright[i].pos.x /\ e.rows[k].y = e.bright[i].pos.y /\ T(i, e.rows[k].t))
   \cup Clause("K10_Flag", (Unequal(2, 1) => e.flag) /\ (~Unequal(4, 3) => ~e.flag))
   \cup Clause("K10_Setup", e.fpam = "ND225" /\ e.h \in {e.bright[i].dh : i \in 1..nb} /\ e.v \in {e.bright[i].dv : i \in 1..nb} /\ e.cfam = "1F")
   \cup Clause("K10_Kept", e.kept))
TheFails(s, e) == CASE e.op = "conv" -> ConvFails(e) [] e.op = "flux" -> FluxFails(e) [] e.op = "gauss" -> GaussFails(e) [] e.op = "fcal" -> FcalFails(e) [] e.op = "band" -> BandFails(e)
                    [] e.op = "curve" -> CurveFails(e) [] e.op = "mag" -> MagFails(e) [] e.op = "zero" -> ZeroFails(e) [] e.op = "color" -> ColorFails(e) [] e.op = "plane" -> PlaneFails(e) [] e.op = "ndcal" -> NdFails(e)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
