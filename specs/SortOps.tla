------------------------------ MODULE SortOps ------------------------------
(* Sorting a pupil-imaging campaign.  A campaign is a sequence of frames       *)
(* [id, g (commanded gain), t (exposure time)] in file order, with distinct     *)
(* numbers; the sets are defined on the frames in the order of their numbers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SetOf(q) == {q[i] : i \in DOMAIN q}
Less(a, b) == a.id < b.id
RECURSIVE Insert(_, _)
Insert(f, q) == IF q = <<>> THEN <<f>> ELSE IF f.id < Head(q).id THEN <<f>> \o q ELSE <<Head(q)>> \o Insert(f, SubSeq(q, 2, Len(q)))
RECURSIVE ById(_)
ById(q) == IF q = <<>> THEN <<>> ELSE Insert(Head(q), ById(SubSeq(q, 2, Len(q))))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Unity(c) == SelectSeq(c, LAMBDA f : f.g = 1)
\* --- mean frame: most populated exposure time, then the longest run of consecutive numbers (the first of equally long ones)
Count(c, t) == Len(SelectSeq(c, LAMBDA f : f.t = t))
MeanTimes(c) == {t \in {f.t : f \in SetOf(c)} : \A u \in {f.t : f \in SetOf(c)} : Count(c, u) <= Count(c, t)}
RunAt(q, i) == Max({n \in 1..(Len(q) - i + 1) : \A j \in 1..(n - 1) : q[i + j].id = q[i + j - 1].id + 1})
MeanIds(c, t) ==
  LET q == ById(SelectSeq(c, LAMBDA f : f.t = t))
      best == Max({RunAt(q, i) : i \in DOMAIN q})
      i == Min({k \in DOMAIN q : RunAt(q, k) = best}) IN
  {q[k].id : k \in i..(i + best - 1)}

\* --- series: maximal ascents closed by a repeated element -------------------------------------------------------------
\* blocks of equal exposure time
RECURSIVE Blocks(_)
Blocks(q) == IF q = <<>> THEN <<>> ELSE
  LET n == Max({k \in DOMAIN q : \A j \in 1..k : q[j].t = q[1].t}) IN <<[t |-> q[1].t, ids |-> [j \in 1..n |-> q[j].id]]>> \o Blocks(SubSeq(q, n + 1, Len(q)))
Consecutive(ids) == \A j \in 1..(Len(ids) - 1) : ids[j + 1] = ids[j] + 1
Climbs(a, b) == b.t > a.t /\ Len(a.ids) = Len(b.ids) /\ Consecutive(a.ids \o b.ids)
\* i..j is a series: it climbs from i to j - 1, cannot start earlier, and block j repeats an exposure time of it
Series(B, i, j) ==
  /\ i < j /\ j <= Len(B)
  /\ \A k \in i..(j - 2) : Climbs(B[k], B[k + 1])
  /\ ~Climbs(B[j - 1], B[j]) /\ B[j].t < B[j - 1].t
  /\ \E k \in i..(j - 1) : B[k].t = B[j].t
  /\ i > 1 => ~Climbs(B[i - 1], B[i])
AllSeries(B) == {p \in (DOMAIN B) \X (DOMAIN B) : Series(B, p[1], p[2])}
Longest(S) == {p \in S : \A r \in S : r[2] - r[1] <= p[2] - p[1]}
First(S) == CHOOSE p \in S : \A r \in S : p[1] <= r[1]
\* layouts for which the definition has one reading: every block that closes a rise has that rise's size and follows it directly
Settled(B) == \A j \in DOMAIN B : \A i \in 1..(j - 1) : Series(B, i, j) => Len(B[j].ids) = Len(B[j - 1].ids) /\ Consecutive(B[j - 1].ids \o B[j].ids)
UBlocks(c, mt) == Blocks(ById(SelectSeq(Unity(c), LAMBDA f : f.t # mt)))
HasKGain(c, mt) == AllSeries(Blocks(ById(SelectSeq(Unity(c), LAMBDA f : f.t # mt)))) # {}
KGainIds(c, mt) ==
  LET B == Blocks(ById(SelectSeq(Unity(c), LAMBDA f : f.t # mt)))
      p == First(Longest(AllSeries(B))) IN
  UNION {SetOf(B[k].ids) : k \in p[1]..p[2]}
\* nonlinearity: for another gain, single frames: strictly increasing exposures and one repeat
Rise(q, i, j) ==
  /\ i < j /\ j <= Len(q)
  /\ \A k \in i..(j - 2) : q[k + 1].t > q[k].t
  /\ q[j].t < q[j - 1].t
  /\ \E k \in i..(j - 1) : q[k].t = q[j].t
  /\ i > 1 => q[i].t < q[i - 1].t
Rises(q) == {p \in (DOMAIN q) \X (DOMAIN q) : Rise(q, p[1], p[2])}
NonLinIds(c, g) ==
  LET q == ById(SelectSeq(c, LAMBDA f : f.g = g)) IN
  IF Rises(q) = {} THEN {} ELSE LET p == First(Longest(Rises(q))) IN {q[k].id : k \in p[1]..p[2]}
\* equally long candidates are equally good
MeanOptions(c, t) ==
  LET q == ById(SelectSeq(c, LAMBDA f : f.t = t)) best == Max({RunAt(q, i) : i \in DOMAIN q}) IN
  {{q[k].id : k \in i..(i + best - 1)} : i \in {k \in DOMAIN q : RunAt(q, k) = best}}
KGainOptions(c, mt) ==
  LET B == UBlocks(c, mt) IN {UNION {SetOf(B[k].ids) : k \in p[1]..p[2]} : p \in Longest(AllSeries(B))}
NonLinOptions(c, g) ==
  LET q == ById(SelectSeq(c, LAMBDA f : f.g = g)) IN
  IF Rises(q) = {} THEN {{}} ELSE {{q[k].id : k \in p[1]..p[2]} : p \in Longest(Rises(q))}
NonLinAll(c) == UNION {NonLinIds(c, g) : g \in {f.g : f \in SetOf(c)} \ {1}}
=============================================================================
