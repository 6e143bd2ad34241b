---------------------------- MODULE GenProducts ----------------------------
EXTENDS Products, Json, Randomization
VARIABLE hist
R(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
GNext == n < MaxSteps /\ n' = n + 1 /\
  \/ \E k \in {R(Kinds)} : New(k) /\ Rec([op |-> "new", k |-> k])
  \/ \E k \in {R(Kinds)} : New(k) /\ Rec([op |-> "new", k |-> k])
  \/ \E x \in RandomSubset(1, DOMAIN objs) : Edit(x) /\ Rec([op |-> "edit", x |-> x])
  \/ \E x \in RandomSubset(1, DOMAIN objs) : Copy(x) /\ Rec([op |-> "copy", x |-> x])
  \/ \E x \in RandomSubset(2, DOMAIN objs), p \in {R(Paths)} : Save(x, p) /\ Rec([op |-> "save", x |-> x, p |-> p])
  \/ \E p \in {R(Paths)}, c \in {R(Calibs)} : Load(p, c) /\ Rec([op |-> "load", p |-> p, c |-> c])
  \/ \E p \in {q \in Paths : files[q] # None} : Load(p, IF files[p].kind \in Calibs THEN files[p].kind ELSE "Image")
        /\ Rec([op |-> "load", p |-> p, c |-> IF files[p].kind \in Calibs THEN files[p].kind ELSE "Image"])
  \/ \E p \in {q \in Paths : files[q] # None} : Load(p, "Image") /\ Rec([op |-> "load", p |-> p, c |-> "Image"])
  \/ \E p \in {q \in Paths : files[q] # None} : Auto(p) /\ Rec([op |-> "auto", p |-> p])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GPrint == n = MaxSteps => PrintT("VJ " \o ToJson(hist))
=============================================================================
