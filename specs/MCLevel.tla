------------------------------- MODULE MCLevel -------------------------------
(* Every order of level updates on datasets of mixed levels; histories are     *)
(* printed for replay (Show).                                                  *)
EXTENDS LevelOps, TLC, Json
CONSTANTS N, Steps, Relabels, Show
VARIABLES ds, hist, start
vars == <<ds, hist, start>>
F(l, t) == [lvl |-> l, tok |-> t, ct |-> -1, fx |-> -1]
Init == /\ ds \in [1..N -> {F(l, l) : l \in Level} \cup {F("L1", "none"), F("L2b", "L2a")}]
        /\ hist = <<>> /\ start = ds
Up(k, ct, fx) == /\ hist' = Append(hist, [op |-> "up", k |-> k, ct |-> ct, fx |-> fx])
                 /\ ds' = IF Accepts(ds, k) THEN Update(ds, k, ct, fx) ELSE ds
Relabel(i, l) == /\ hist' = Append(hist, [op |-> "set", i |-> i, l |-> l]) /\ ds' = [ds EXCEPT ![i].lvl = l]
Next == /\ Len(hist) < Steps /\ UNCHANGED start
        /\ \/ \E k \in Updates, ct \in {0, 1} : (ct = 1 => k = 4) /\ Up(k, ct, Len(hist) + 1)
           \/ Relabels /\ \E i \in 1..N, l \in {"L1", "L3", "L4"} : Relabel(i, l)
Spec == Init /\ [][Next]_vars
\* without relabelling a frame's level only ever moves one up at a time, and all frames of a dataset that moved agree
OneUp == [][~Relabels => \A i \in DOMAIN ds : Rank(ds'[i].lvl) - Rank(ds[i].lvl) \in {0, 1}]_vars
Together == [][(ds' # ds /\ hist'[Len(hist')].op = "up") => \A i, j \in DOMAIN ds : ds'[i].lvl = ds'[j].lvl]_vars
CalsAtL4 == ~Relabels => \A i \in DOMAIN ds : ds[i].fx # -1 => Rank(ds[i].lvl) >= 5
NameFollows == ~Relabels => \A i \in DOMAIN ds : start[i].tok = start[i].lvl => ds[i].tok = ds[i].lvl
Printed == (Show /\ Len(hist) = Steps) => PrintT("VJ " \o ToJson([start |-> start, hist |-> hist]))
=============================================================================
