------------------------------ MODULE LevelOps ------------------------------
(***************************************************************************)
(* Data levels.  A frame is [lvl |-> header level, tok |-> level named in  *)
(* its file name ("none" when the name does not name one)], plus the       *)
(* calibrations the update to L4 recorded.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Chain == <<"L1", "L2a", "L2b", "L3", "L4", "TDA">>
Level == {Chain[i] : i \in DOMAIN Chain}
Rank(l) == CHOOSE i \in DOMAIN Chain : Chain[i] = l
\* update k takes level Chain[k] to Chain[k + 1]
Updates == 1..5
From(k) == Chain[k]
To(k) == Chain[k + 1]
Accepts(ds, k) == \A i \in DOMAIN ds : ds[i].lvl = From(k)
Raised(f, k, ct, fx) ==
  [lvl |-> To(k), tok |-> IF f.tok = From(k) THEN To(k) ELSE f.tok,
   ct |-> IF k = 4 THEN ct ELSE f.ct, fx |-> IF k = 4 THEN fx ELSE f.fx]
Update(ds, k, ct, fx) == [i \in DOMAIN ds |-> Raised(ds[i], k, ct, fx)]
=============================================================================
