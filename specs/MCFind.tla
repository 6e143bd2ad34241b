------------------------------- MODULE MCFind -------------------------------
(* The loop against an arbitrary significance map: at every turn the map may     *)
(* take any value on the pixels still in the residual.  It ends, no pixel is       *)
(* reported twice nor inside the core of an earlier report, and there are never     *)
(* more reports than pixels.                                                        *)
EXTENDS FindOps
CONSTANTS H, W, F, Top, Thr
VARIABLES valid, found, map, done
vars == <<valid, found, map, done>>
P == 0..(H * W - 1)
Maps(V) == [V -> 0..Top]
Init == valid \in (SUBSET P) /\ found = <<>> /\ done = FALSE /\ map \in Maps(valid)
Peak == {p \in valid : \A q \in valid : map[p] >= map[q]}
Take == /\ ~done
        /\ \E p \in Peak : /\ map[p] > Thr /\ \A q \in Peak : p <= q
                           /\ found' = Append(found, [p |-> p, s |-> map[p]])
                           /\ valid' = {q \in valid : ~InCore(p, q, W, F)}
                           /\ map' \in Maps(valid')
                           /\ UNCHANGED done
Stop == ~done /\ (\A p \in valid : map[p] <= Thr) /\ done' = TRUE /\ UNCHANGED <<valid, found, map>>
Next == Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
Once == \A i, j \in DOMAIN found : i < j => ~InCore(found[i].p, found[j].p, W, F)
Above == \A i \in DOMAIN found : found[i].s > Thr
Gone == \A i \in DOMAIN found : found[i].p \notin valid
Bounded == Len(found) + Cardinality(valid) <= H * W
Complete == done => \A p \in valid : map[p] <= Thr
Shrinks == [][Len(found') > Len(found) => Cardinality(valid') < Cardinality(valid)]_vars
=============================================================================
