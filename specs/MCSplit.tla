------------------------------- MODULE MCSplit -------------------------------
(* The conditions hold of the reference and of nothing else but reorderings   *)
(* of its groups; the scenarios are printed for replay.                       *)
EXTENDS SplitOps, TLC, Json
CONSTANTS MaxN, MaxKeys, NVal, Show
VARIABLES vals, gs
Init == /\ \E n \in 1..MaxN, k \in 1..MaxKeys : vals \in [1..n -> [1..k -> 1..NVal]]
        /\ gs = <<>>
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i \in 1..(Cardinality(S) - 1) : q[i] < q[i + 1]
\* grow an arbitrary candidate grouping
Next == /\ Len(gs) < 3 /\ Len(vals) <= 3
        /\ \E S \in SUBSET (DOMAIN vals) : \E t \in {vals[i] : i \in DOMAIN vals} :
              gs' = Append(gs, [m |-> Sorted(S), v |-> t])
        /\ UNCHANGED vals
Spec == Init /\ [][Next]_<<vals, gs>>
RefGood == gs = <<>> => Good(vals, Reference(vals))
Unique == Good(vals, gs) => GroupSet(gs) = GroupSet(Reference(vals)) /\ Len(gs) = Len(Reference(vals))
NoGroups == gs = <<>>
Printed == (gs = <<>> /\ Show) => PrintT("VJ " \o ToJson([vals |-> vals]))
=============================================================================
