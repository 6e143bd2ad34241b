------------------------------ MODULE GenCalDB ------------------------------
(* Histories of CalDB.tla for replay: every step is one database call.     *)
EXTENDS CalDB, Json, Randomization
CONSTANTS Depth
VARIABLE hist

Types == <<"Dark", "Dark", "Dark", "Flat", "Flat", "KGain", "Dark">>
GRows == {[path |-> p, type |-> Types[p], mjd |-> m, exptime |-> x, created |-> c] :
            p \in 1..7, m \in 0..4, x \in 1..2, c \in 1..5}

GAct(r) == hist' = Append(hist, r)

GNext ==
  /\ Len(hist) < Depth
  /\ \E h \in Handles :
       \/ Open(h) /\ GAct([op |-> "open", h |-> h, td |-> TRUE])
       \/ Load(h) /\ GAct([op |-> "load", h |-> h, td |-> TRUE])
       \/ Save(h) /\ GAct([op |-> "save", h |-> h, td |-> TRUE])
       \/ \E td \in BOOLEAN :
            \/ \E r \in RandomSubset(3, GRows) : Create(h, r, td) /\ GAct([op |-> "create", h |-> h, td |-> td, r |-> r])
            \/ \E p \in RandomSubset(2, 1..7) : Remove(h, p, td) /\ GAct([op |-> "remove", h |-> h, td |-> td, p |-> p])
            \/ \E r1 \in RandomSubset(1, GRows), r2 \in RandomSubset(1, GRows) :
                 /\ r1.path < r2.path
                 /\ Scan(h, <<r1, r2>>, td)
                 /\ GAct([op |-> "scan", h |-> h, td |-> td, rs |-> <<r1, r2>>])
            \/ \E ty \in {"Dark", "Flat", "KGain"}, m \in RandomSubset(2, 0..4), x \in RandomSubset(1, 0..2) :
                 Get(h, td) /\ GAct([op |-> "get", h |-> h, td |-> td, ty |-> ty, mjd |-> m, x |-> x])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GPrint == Len(hist) = Depth => PrintT("VJ " \o ToJson(hist))
GConstraint == \A h \in Handles : mem[h] = None \/ Len(mem[h]) <= 6
=============================================================================
