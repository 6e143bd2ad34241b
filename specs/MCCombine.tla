----------------------------- MODULE MCCombine -----------------------------
EXTENDS CombineOps
CONSTANTS D, N
V == {-2, 0, 1, 3}
VARIABLE s
Init == \E n \in 1..N : s \in [1..n -> V \X D]
Next == UNCHANGED s
GoodSet == {i \in DOMAIN s : s[i][2] = 0}
\* a flagged sample never matters (unless nothing else is left)
Bounded == ~AllBad(s) => \A f \in {MeanZ(s), MedianZ(s)} :
              (\E i \in GoodSet : Z * s[i][1] <= f) /\ (\E i \in GoodSet : f <= Z * s[i][1])
MeanExact == ~AllBad(s) => MeanZ(s) * Len(Good(s)) = Z * SumOver(Vals(s), Good(s))
FlaggedIffAllBad == (OutFlags(s) # 0) <=> (\A i \in DOMAIN s : s[i][2] # 0)
AllTheirFlags == AllBad(s) => \A i \in DOMAIN s : SubFlags(s[i][2], OutFlags(s))
DropFlagged == \A b \in V : ~AllBad(s) =>
                 LET t == Append(s, <<b, 4>>) IN MeanZ(t) = MeanZ(s) /\ MedianZ(t) = MedianZ(s) /\ OutFlags(t) = 0
Order == Len(s) >= 2 /\ ~AllBad(s) =>
           LET t == <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1) IN
           MeanZ(t) = MeanZ(s) /\ MedianZ(t) = MedianZ(s) /\ OutFlags(t) = OutFlags(s)
=============================================================================
