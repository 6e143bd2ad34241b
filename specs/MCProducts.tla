----------------------------- MODULE MCProducts -----------------------------
EXTENDS Products
VARIABLE act
Next == n < MaxSteps /\ n' = n + 1 /\
  \/ \E k \in UsedKinds : New(k) /\ act' = <<"new", 0>>
  \/ \E x \in DOMAIN objs : (Edit(x) /\ act' = <<"edit", x>>) \/ (Copy(x) /\ act' = <<"copy", x>>)
  \/ \E x \in DOMAIN objs, p \in Paths : Save(x, p) /\ act' = <<"save", x>>
  \/ \E p \in Paths, c \in UsedKinds \cup {"Image"} : c # "Cube" /\ Load(p, c) /\ act' = <<"load", 0>>
  \/ \E p \in Paths : Auto(p) /\ act' = <<"auto", 0>>
Spec == Init /\ act = <<"init", 0>> /\ [][Next]_<<vars, act>>
\* a refused load leaves everything as it was; an object changes only when it is edited itself; a file only by saving
EditOnly == [][\A x \in DOMAIN objs : objs'[x] # objs[x] => act' = <<"edit", x>>]_<<vars, act>>
FilesBySave == [][files' # files => act'[1] = "save"]_<<vars, act>>
\* a calibration kind is never acquired by loading a file of another kind
KindsKept == [][act'[1] = "auto" /\ ~refused' => \E p \in Paths : objs'[Len(objs')] = files[p]]_<<vars, act>>
=============================================================================
