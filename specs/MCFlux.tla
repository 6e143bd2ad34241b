-------------------------------- MODULE MCFlux --------------------------------
(* Lemmas: a flat spectrum's band flux is itself and its colour correction one;  *)
(* band flux lies between the spectrum's extremes and is linear in it; the         *)
(* pivot and effective wavelengths lie inside the band; colour corrections of       *)
(* swapped spectra are reciprocal; aperture sums grow with the radius and are        *)
(* additive in the frame; interpolation hits its samples and stays between them.      *)
EXTENDS FluxOps
CONSTANTS V, L
VARIABLES step
Init == step = 0
Next == step < 1 /\ step' = step + 1
Spec == Init /\ [][Next]_step
Specs == [1..3 -> 1..V]
Trans == {t \in [1..3 -> 0..2] : t # [i \in 1..3 |-> 0]}
Waves == {[i \in 1..3 |-> a + d * i] : a \in 0..L, d \in 1..2}
MinOf(f) == CHOOSE m \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : m <= f[i]
MaxOf(f) == CHOOSE m \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : m >= f[i]
Flat == \A t \in Trans, l \in Waves, c \in 1..V, k \in 1..3 : LET f == [i \in 1..3 |-> c] b == BandFlux(t, f, l) q == ColorCor(t, f, f, l, k) IN b[1] = c * b[2] /\ q[1] = q[2]
Inside == \A t \in Trans, l \in Waves, f \in Specs : LET b == BandFlux(t, f, l) e == EffectiveWave(t, f, l) p == PivotWave2(t, l) IN
          /\ MinOf(f) * b[2] <= b[1] /\ b[1] <= MaxOf(f) * b[2]
          /\ l[1] * e[2] <= e[1] /\ e[1] <= l[3] * e[2]
          /\ l[1] * l[1] * p[2] <= p[1] /\ p[1] <= l[3] * l[3] * p[2]
Linear == \A t \in Trans, l \in Waves, f, g \in Specs : BandFlux(t, [i \in 1..3 |-> f[i] + g[i]], l)[1] = BandFlux(t, f, l)[1] + BandFlux(t, g, l)[1]
Reciprocal == \A t \in Trans, l \in Waves, f, g \in Specs, k \in 1..3 : LET a == ColorCor(t, f, g, l, k) b == ColorCor(t, g, f, l, k) IN a[1] * b[1] = a[2] * b[2]
Fr(v, d) == [w |-> 4, h |-> 4, px |-> [i \in 1..16 |-> (i * v) % 7], er |-> [i \in 1..16 |-> (i + v) % 3], dq |-> [i \in 1..16 |-> IF i \in d THEN 1 ELSE 0]]
Grow == \A v \in 1..3, d \in {{}, {6}, {1, 7}}, x \in 0..3, y \in 0..3, r \in {1, 3, 5}, s \in 1..2 : LET f == Fr(v, d) p == [x |-> x, y |-> y] IN
        /\ Aperture(f, p, r, s, 0) <= Aperture(f, p, r + 2, s, 0) /\ Aperture(f, p, r, s, 0) <= Aperture(Fr(v, {}), p, r, s, 0) /\ ApertureVar(f, p, r, s, 0) <= ApertureVar(f, p, r + 2, s, 0)
        /\ Net([f EXCEPT !.px = [i \in 1..16 |-> f.px[i] + 2]], p, r, s, 0, 2) = Aperture(f, p, r, s, 0)
        /\ Aperture(f, p, r, s, 0) = Aperture(f, p, r, s, 1)                          \* an odd diameter has nothing on the rim
Interp == \A y \in [1..3 -> 0..V] : \A at \in 2..8 : LET x == <<2, 5, 8>> b == Between(x, y, at) IN MinOf(y) * b[2] <= b[1] /\ b[1] <= MaxOf(y) * b[2] /\ \A k \in 1..3 : x[k] = at => b[1] = y[k] * b[2]
Neutral == \A c \in 1..4, s \in 1..4, m \in 1..4 : LET q == Throughput([s |-> m * s, c |-> m * c], <<[c |-> c, s |-> s]>>) IN 100000 * q[2] - q[1] >= 0 /\ 100000 * q[2] - q[1] <= m * s
=============================================================================
