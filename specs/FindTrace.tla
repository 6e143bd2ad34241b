------------------------------ MODULE FindTrace ------------------------------
EXTENDS TraceBase, FindOps
\* e.maps[k]: in (the residual put through the significance map, hundredths or NAN), sn (significance in thousandths, NAN where there is none), mask (of the correlation), noise
Pix(e) == 1..(e.h * e.w)
Live(m) == {i \in DOMAIN m.sn : m.sn[i] # NAN}
Best(m) == CHOOSE v \in {m.sn[i] : i \in Live(m)} : \A i \in Live(m) : m.sn[i] <= v
Over(e, m) == Live(m) # {} /\ Best(m) > e.thr
Nf(e) == Len(e.found)
At(e, k) == e.found[k].y * e.w + e.found[k].x           \* pixel number, from 0
OnGrid(e, k) == e.found[k].y \in 0..(e.h - 1) /\ e.found[k].x \in 0..(e.w - 1)
PeakOk(e, k) == LET m == e.maps[k] i == At(e, k) + 1 IN
                Live(m) # {} /\ Best(m) >= e.thr - 1 /\ m.sn[i] = Best(m) /\ (m.sn[i] > 900000 \/ Near(e.found[k].sn * 100, m.sn[i], 51))
MaskOk(e, m) == \A i \in DOMAIN m.mask : LET mw == m.mw mh == Len(m.mask) \div mw  dy == ((i - 1) \div mw) - ((mh - 1) \div 2)  dx == ((i - 1) % mw) - ((mw - 1) \div 2) IN
                m.mask[i] = (IF InDisc(dy, dx, e.f) /\ dy + e.ph \div 2 \in 0..(e.ph - 1) /\ dx + e.pw \div 2 \in 0..(e.pw - 1) THEN 1 ELSE 0)
Dropped(e, k, q) == InCore(At(e, k), q, e.w, e.f) /\ InBox(At(e, k), q, e.w, e.ph, e.pw)
P(e, k, q) == e.psf[BoxIndex(At(e, k), q, e.w, e.ph, e.pw) + 1]
Big(v) == AbsT(v) > 100000
SubOk(e, k) ==
  LET p == At(e, k) a == e.maps[k].in b == e.maps[k + 1].in
      box == {q \in 0..(e.h * e.w - 1) : InBox(p, q, e.w, e.ph, e.pw)}
      old == {q \in box : a[q + 1] # NAN}
      rim == {q \in old : ~Dropped(e, k, q)}
  IN /\ \A q \in (0..(e.h * e.w - 1)) \ box : b[q + 1] = a[q + 1]
     /\ \A q \in box : (b[q + 1] = NAN) = (a[q + 1] = NAN \/ Dropped(e, k, q))
     /\ rim # {} =>
        LET r == CHOOSE q \in rim : \A z \in rim : P(e, k, q) >= P(e, k, z)
            D == a[r + 1] - b[r + 1] IN
        \/ P(e, k, r) < 300 \/ \E q \in old : Big(a[q + 1]) \/ (q \in rim /\ Big(b[q + 1]))
        \/ LET Tol == 3 * P(e, k, r) + 20000 + 2 * AbsT(D) IN
           /\ \A q \in rim : Near((a[q + 1] - b[q + 1]) * P(e, k, r), D * P(e, k, q), Tol)
           \* the scale is the median ratio between image and PSF over the box
           /\ 2 * Cardinality({q \in old : a[q + 1] * P(e, k, r) < D * P(e, k, q) - Tol}) <= Cardinality(old)
           /\ 2 * Cardinality({q \in old : a[q + 1] * P(e, k, r) > D * P(e, k, q) + Tol}) <= Cardinality(old)
\* a residual without a pixel left has no significance map
Empty(e) == \A i \in Pix(e) : e.img[i] = NAN
TheFails(s, e) ==
  IF e.exc # "" THEN (IF e.consumed THEN {} ELSE {"K08_Works"})
  ELSE IF \E k \in 1..Nf(e) : ~OnGrid(e, k) THEN {"K08_Position"}
  ELSE Clause("K08_InputKept", e.kept)
       \cup Clause("K08_Header", e.numbered /\ Nf(e) = Len(e.keys))
       \cup Clause("K08_Once", \A i, j \in 1..Nf(e) : i < j => ~Dropped(e, i, At(e, j)))
       \cup Clause("K08_AboveThreshold", \A k \in 1..Nf(e) : e.found[k].sn * 100 + 51 > e.thr)
       \cup (IF ~e.seen THEN {} ELSE
             Clause("K08_OneMapPerReport", Len(e.maps) = Nf(e) + 1)
             \cup (IF Len(e.maps) # Nf(e) + 1 THEN {} ELSE
                   Clause("K08_Image", e.maps[1].in = e.img)
                   \cup Clause("K08_Mask", \A k \in DOMAIN e.maps : MaskOk(e, e.maps[k]))
                   \cup Clause("K08_Noise", \A k \in DOMAIN e.maps : e.maps[k].noise = (IF e.wop THEN "given" ELSE "self"))
                   \cup Clause("K08_Peak", \A k \in 1..Nf(e) : PeakOk(e, k))
                   \cup Clause("K08_Subtracted", \A k \in 1..Nf(e) : SubOk(e, k))
                   \cup Clause("K08_AllReported", ~Over(e, e.maps[Nf(e) + 1]) \/ Best(e.maps[Nf(e) + 1]) - e.thr <= 1)))
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
