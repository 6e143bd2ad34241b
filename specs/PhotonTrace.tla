---------------------------- MODULE PhotonTrace ----------------------------
EXTENDS TraceBase, PhotonOps
\* e.fr: frames [x, q, t, g, k, rn, vis, ispc] (x in units of 1/100 electrons), e.thr (same unit), e.u, e.E (thousandths)
Bin(e) == IF e.bin = 0 THEN Len(e.fr) ELSE e.bin
Groups(e) == [b \in 1..NumGroups(e.fr, Bin(e)) |-> Group(e.fr, b, Bin(e))]
MeanHigh(e, G) == e.low /\ SumP([k \in DOMAIN G |-> SumP([i \in DOMAIN G[k].x |-> IF e.mask[i] = 0 THEN G[k].x[i] ELSE 0])]) > 0
MustReject(e) ==
  \/ e.niter < 1
  \/ Bin(e) > Len(e.fr)
  \/ \E b \in DOMAIN Groups(e) : LET G == Groups(e)[b] IN
       \/ ~Uniform(G)
       \/ (G[1].vis = "DARK") # (e.mode = "darks")
       \/ G[1].vis = "DARK" /\ e.md # ""
       \/ \E k \in DOMAIN G : G[k].ispc = "no"
       \/ G[1].rn <= 0 \/ e.thr < 0
       \/ e.safe /\ (e.thr >= e.g \/ MeanHigh(e, G))
       \/ e.md \in {"image", "analog", "thresh", "few", "nothresh"}
\* values are only compared where the correction is well inside its range
Calm(k, n, e) == 10 * k * e.E <= 6 * n * S
\* counts when every value is raised by its error (the upper bound is put through the same correction)
CountsUp(G, i, thr) == Cardinality({k \in DOMAIN G : G[k].q[i] = 0 /\ Counted(G[k].x[i] + G[k].e[i], thr)})
\* equation for the corrected mean l
Fits(l, k, n, e) == IF k = 0 THEN AbsT(l) <= 1 ELSE AbsT(n * Eps(l, e.u, e.E) - k * S) <= n * (IF e.niter < 4 THEN 40 ELSE 10)
PixelOk(e, b, i) ==
  LET G == Groups(e)[b] n == UsableP(G, i) k == Counts(G, i, e.thr) o == e.out[b].d[i]
      d == IF e.mdd = <<>> THEN 0 ELSE e.mdd[((b - 1) % Len(e.mdd)) + 1][i] IN
  n = 0 \/ e.thr >= e.g \/ ~Calm(k, n, e) \/ (IF o > 0 THEN o < 3 * S /\ Fits(o + d, k, n, e) ELSE o = 0 /\ (k = 0 \/ n * Eps(d, e.u, e.E) + n * 40 >= k * S))
FlagOk(e, b, i) ==
  LET G == Groups(e)[b] none == UsableP(G, i) = 0
      dq == IF e.mdq = <<>> THEN 0 ELSE e.mdq[((b - 1) % Len(e.mdq)) + 1][i] IN
  e.out[b].q[i] = IF none THEN (IF dq % 2 = 1 THEN dq ELSE dq + 1) ELSE dq
\* error with the dark = error without it and the dark's, in quadrature (thousandths of squares)
ErrOk(e, b, i) ==
  UsableP(Groups(e)[b], i) = 0 \/ e.out[b].e2[i] = NAN \/
  LET de == IF e.mde = <<>> THEN 0 ELSE e.mde[((b - 1) % Len(e.mde)) + 1][i] IN
  Near(e.out[b].e2[i], e.plain[b][i] + de * de * 10, 3 + (e.out[b].e2[i] \div 100000))

\* without error in the inputs, the error is the expected variance of the corrected mean (thousandths); A is counts/frames over exp(-u)
Variance(k, n, e) ==
  LET eps == (k * S) \div n  A == Mul(eps, e.E)
      B == Mul(e.E, S + Mul(S - e.u, A) + Mul(4 * S - 8 * e.u + 5 * Mul(e.u, e.u), Mul(A, A)) \div 4)
  IN Mul(Mul(eps, S - eps), Mul(B, B)) \div n
NoError(G, i) == \A k \in DOMAIN G : G[k].e[i] = 0
VarOk(e, b, i) ==
  LET G == Groups(e)[b] n == UsableP(G, i) k == Counts(G, i, e.thr) IN
  n = 0 \/ e.thr >= e.g \/ e.niter < 4 \/ ~Calm(k, n, e) \/ ~NoError(G, i)
  \/ LET v == Variance(k, n, e) IN Near(e.stat[b][i], v, 6 + v \div 30)

TheFails(s, e) ==
  IF MustReject(e) THEN Clause("K06_Rejected", e.exc # "")
  ELSE IF e.exc # "" THEN (IF \A b \in DOMAIN Groups(e) : \A i \in DOMAIN e.mask :
                              LET G == Groups(e)[b] IN Calm(CountsUp(G, i, e.thr), UsableP(G, i), e) /\ e.thr < e.g
                           THEN {"K06_Works"} ELSE {})
  ELSE IF Len(e.out) # Len(Groups(e)) THEN {"K06_OneFramePerGroup"}
  ELSE LET B == DOMAIN Groups(e) I == DOMAIN e.mask IN
       Clause("K06_CountsAndCorrection", \A b \in B : \A i \in I : PixelOk(e, b, i))
       \cup Clause("K06_NonNegative", \A b \in B : \A i \in I : e.out[b].d[i] >= 0 \/ e.out[b].d[i] = NAN)
       \cup Clause("K06_FlagWhereNoFrame", \A b \in B : \A i \in I : FlagOk(e, b, i))
       \cup Clause("K06_Error", \A b \in B : \A i \in I : ErrOk(e, b, i))
       \cup Clause("K06_Variance", \A b \in B : \A i \in I : VarOk(e, b, i))
       \cup Clause("K06_Threshold", \A b \in B : e.out[b].thr = e.thr)
       \cup Clause("K06_FrameCount", \A b \in B : e.out[b].nfr = Bin(e))
       \cup Clause("K06_FramesUsed", \A b \in B : IF e.mode = "darks" THEN ToSet(e.out[b].parents) = 1..(Len(Groups(e)) * Bin(e))
                                                  ELSE ToSet(e.out[b].parents) = ((b - 1) * Bin(e) + 1)..(b * Bin(e)))
       \cup Clause("K06_Product", \A b \in B : e.out[b].type)
       \cup Clause("K06_InputKept", e.kept)
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
