----------------------------- MODULE CombineOps -----------------------------
(* Combining the samples of one pixel.  A sample is <<v, d>>: value and flags. *)
(* Errors are given squared, one per sample.  Results are exact fractions      *)
(* scaled by Z (data) and by Z*Z (squared errors); Z is a multiple of 2n for    *)
(* every number n of samples used.                                              *)
EXTENDS DQBitsOps, TLC
CONSTANT Z

Good(s) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i][2] = 0)       \* indices of the unflagged samples
RECURSIVE SumOver(_, _)
SumOver(f, is) == IF is = <<>> THEN 0 ELSE f[Head(is)] + SumOver(f, Tail(is))
Vals(s) == [i \in DOMAIN s |-> s[i][1]]
Flags(s) == [i \in DOMAIN s |-> s[i][2]]

SortSeqC(s) == LET RECURSIVE Ins(_, _), Srt(_)
                   Ins(x, o) == IF o = <<>> THEN <<x>> ELSE IF x <= Head(o) THEN <<x>> \o o ELSE <<Head(o)>> \o Ins(x, Tail(o))
                   Srt(u) == IF u = <<>> THEN <<>> ELSE Ins(Head(u), Srt(Tail(u)))
               IN Srt(s)

\* Z times the mean / median of the unflagged samples
MeanZ(s) == (Z * SumOver(Vals(s), Good(s))) \div Len(Good(s))
MedianZ(s) == LET o == SortSeqC([k \in DOMAIN Good(s) |-> s[Good(s)[k]][1]])
                  n == Len(o) IN
              IF n % 2 = 1 THEN Z * o[(n + 1) \div 2] ELSE (Z \div 2) * (o[n \div 2] + o[n \div 2 + 1])

AllBad(s) == Good(s) = <<>>
OutFlags(s) == IF AllBad(s) THEN OrSeq(Flags(s)) ELSE 0
\* Z*Z times the squared error of the mean (for a median: before the factor pi/2)
ErrZZ(s, e2) == LET n == Len(Good(s)) IN (Z \div n) * (Z \div n) * SumOver(e2, Good(s))
=============================================================================
