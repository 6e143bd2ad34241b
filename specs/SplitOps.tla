------------------------------ MODULE SplitOps ------------------------------
(***************************************************************************)
(* Splitting a dataset on header keywords.  vals[i] is the tuple of values *)
(* (as value identities) of frame i; a result is a sequence of groups      *)
(* [m |-> <<frame, ..>>, v |-> tuple].                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Members(g) == {g.m[i] : i \in DOMAIN g.m}
NonEmpty(gs) == \A k \in DOMAIN gs : gs[k].m # <<>>
ValuesRight(vals, gs) == \A k \in DOMAIN gs : \A i \in DOMAIN gs[k].m : vals[gs[k].m[i]] = gs[k].v
Distinct(gs) == \A j, k \in DOMAIN gs : j # k => gs[j].v # gs[k].v
Everyone(vals, gs) == UNION {Members(gs[k]) : k \in DOMAIN gs} = DOMAIN vals
Once(vals, gs) == \A i \in DOMAIN vals : Cardinality({<<k, x>> \in (DOMAIN gs) \X (1..Len(vals)) : x \in DOMAIN gs[k].m /\ gs[k].m[x] = i}) <= 1
Ordered(gs) == \A k \in DOMAIN gs : \A x \in 1..(Len(gs[k].m) - 1) : gs[k].m[x] < gs[k].m[x + 1]
Good(vals, gs) == NonEmpty(gs) /\ ValuesRight(vals, gs) /\ Distinct(gs) /\ Everyone(vals, gs) /\ Once(vals, gs) /\ Ordered(gs)

\* the reference: one group per value tuple, in order of first appearance
RECURSIVE Groups(_, _, _)
Groups(vals, i, acc) ==
  IF i > Len(vals) THEN acc
  ELSE IF \E k \in DOMAIN acc : acc[k].v = vals[i]
       THEN LET k == CHOOSE k \in DOMAIN acc : acc[k].v = vals[i] IN Groups(vals, i + 1, [acc EXCEPT ![k].m = Append(@, i)])
       ELSE Groups(vals, i + 1, Append(acc, [m |-> <<i>>, v |-> vals[i]]))
Reference(vals) == Groups(vals, 1, <<>>)
GroupSet(gs) == {gs[k] : k \in DOMAIN gs}
=============================================================================
