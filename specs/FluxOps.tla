------------------------------- MODULE FluxOps -------------------------------
(***************************************************************************)
(* Photometry and flux: aperture sums, band integrals (composite Simpson    *)
(* rule on an even grid), calibration factors, optical densities.           *)
(* A frame is [w, h, px, er, dq]: row by row.  Ratios are <<num, den>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE AddUp(_)
AddUp(s) == IF s = <<>> THEN 0 ELSE s[1] + AddUp(SubSeq(s, 2, Len(s)))
Col(f, i) == (i - 1) % f.w
Row(f, i) == (i - 1) \div f.w
FromStar(f, i, p) == (Col(f, i) - p.x) * (Col(f, i) - p.x) + (Row(f, i) - p.y) * (Row(f, i) - p.y)
\* r2: twice the radius.  A pixel is divided into s x s parts; those whose middle is nearer than the radius count (on the rim: either way)
Parts(s) == (0..(s - 1)) \X (0..(s - 1))
Share(f, i, p, r2, s, rim) == Cardinality({q \in Parts(s) : LET u == 2 * s * (Col(f, i) - p.x) + 2 * q[1] - (s - 1)  v == 2 * s * (Row(f, i) - p.y) + 2 * q[2] - (s - 1)
                                                          IN (u * u) + (v * v) < (s * s * r2 * r2) + rim})
Counted(f, p, r2) == SelectSeq([i \in DOMAIN f.px |-> i], LAMBDA i : f.dq[i] = 0 /\ 4 * FromStar(f, i, p) < (r2 + 2) * (r2 + 2))
\* all in units of a part (1 / s^2)
Aperture(f, p, r2, s, rim) == LET c == Counted(f, p, r2) IN AddUp([k \in DOMAIN c |-> f.px[c[k]] * Share(f, c[k], p, r2, s, rim)])
ApertureVar(f, p, r2, s, rim) == LET c == Counted(f, p, r2) IN AddUp([k \in DOMAIN c |-> f.er[c[k]] * f.er[c[k]] * Share(f, c[k], p, r2, s, rim)])
Area(f, p, r2, s, rim) == LET c == Counted(f, p, r2) IN AddUp([k \in DOMAIN c |-> Share(f, c[k], p, r2, s, rim)])
\* with a background b per pixel taken off
Net(f, p, r2, s, rim, b) == Aperture(f, p, r2, s, rim) - b * Area(f, p, r2, s, rim)
\* ---- band integrals
SimpsonWeight(n, i) == IF i = 1 \/ i = n THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2
Integral(g) == AddUp([i \in DOMAIN g |-> SimpsonWeight(Len(g), i) * g[i]])          \* in units of a third of the step
Times(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
BandFlux(t, f, l) == <<Integral(Times(Times(f, t), l)), Integral(Times(t, l))>>
Irradiance(t, f, step) == <<step * Integral(Times(f, t)), 3>>
EffectiveWave(t, f, l) == <<Integral(Times(Times(f, t), Times(l, l))), Integral(Times(Times(f, t), l))>>
Prod(l) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE l[k] * P(k - 1) IN P(Len(l))
PivotWave2(t, l) == <<Integral(Times(t, l)) * Prod(l), Integral([i \in DOMAIN t |-> t[i] * (Prod(l) \div l[i])])>>
\* reference wavelength at grid point k
ColorCor(t, ref, src, l, k) == <<Integral(Times(Times(src, t), l)) * ref[k], Integral(Times(Times(ref, t), l)) * src[k]>>
\* ---- linear interpolation between samples (x increasing)
Between(x, y, at) == LET k == CHOOSE j \in 1..(Len(x) - 1) : x[j] <= at /\ at <= x[j + 1] IN <<y[k] * (x[k + 1] - at) + y[k + 1] * (at - x[k]), x[k + 1] - x[k]>>
\* ---- neutral density: frames with the filter in (nd) against those without; star fluxes c, aperture sums s
\* the transmission of a frame in hundred-thousandths
MeanFactor(dim) == AddUp([k \in DOMAIN dim |-> (100000 * dim[k].c) \div dim[k].s])          \* over dim frames, times their number
Throughput(b, dim) == <<b.s * MeanFactor(dim), Len(dim) * b.c>>
Plane(m, x, y) == m.a + m.b * x + m.c * y
=============================================================================
