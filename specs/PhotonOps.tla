----------------------------- MODULE PhotonOps -----------------------------
(* Photon counting of one group of frames: counts over a threshold, usable     *)
(* frames, and the coincidence correction in fixed point (S units to one).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 1000
AbsP(x) == IF x < 0 THEN -x ELSE x
Mul(a, b) == (a * b) \div S
RECURSIVE SumP(_)
SumP(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumP(SubSeq(q, 2, Len(q)))
Counted(x, thr) == x > thr
\* frames of a group: [x (pixels), q (flag words)]
UsableP(G, i) == Cardinality({k \in DOMAIN G : G[k].q[i] = 0})
Counts(G, i, thr) == Cardinality({k \in DOMAIN G : G[k].q[i] = 0 /\ Counted(G[k].x[i], thr)})
\* probability that a pixel of mean l electrons exceeds a threshold of u gains (third order in l); e = exp(u); all times S
Eps(l, u, e) ==
  LET p3 == l + 3 * S                            \* l + 3
      a == Mul(l, p3) + 6 * S                     \* 6 + l (3 + l)
      num == Mul(l, a + Mul(Mul(l, p3), u) + Mul(Mul(l, l), Mul(u, u)) \div 2)
      den == Mul(l, a) + 6 * S                    \* 6 + l (6 + l (3 + l))
  IN Mul((num * S) \div den, (S * S) \div e)
\* group b of size n
Group(F, b, n) == SubSeq(F, (b - 1) * n + 1, b * n)
NumGroups(F, n) == Len(F) \div n
Same(G, key(_)) == \A i, j \in DOMAIN G : key(G[i]) = key(G[j])
Uniform(G) == /\ Same(G, LAMBDA f : f.t) /\ Same(G, LAMBDA f : f.g) /\ Same(G, LAMBDA f : f.k) /\ Same(G, LAMBDA f : f.rn)
              /\ Same(G, LAMBDA f : f.vis)
=============================================================================
