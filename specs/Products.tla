------------------------------ MODULE Products ------------------------------
(* The store of products as a transition system.                              *)
EXTENDS ProductOps
CONSTANTS UsedKinds, Paths, MaxSteps, MaxObjs
VARIABLES objs, files, n, refused
vars == <<objs, files, n, refused>>
None == [kind |-> "none", cid |-> 0]
Init == objs = <<>> /\ files = [p \in Paths |-> None] /\ n = 0 /\ refused = FALSE
New(k) == Len(objs) < MaxObjs /\ objs' = Append(objs, [kind |-> k, cid |-> n + 1]) /\ UNCHANGED files /\ refused' = FALSE
Edit(x) == objs' = [objs EXCEPT ![x].cid = n + 1] /\ UNCHANGED files /\ refused' = FALSE
\* (what saving a calibration read as a plain image gives is left open)
Save(x, p) == objs[x].kind # "Raw" /\ files' = [files EXCEPT ![p] = objs[x]] /\ UNCHANGED objs /\ refused' = FALSE
Load(p, c) == /\ files[p] # None /\ UNCHANGED files
              /\ IF CanLoad(files[p].kind, c)
                 THEN Len(objs) < MaxObjs /\ objs' = Append(objs, [files[p] EXCEPT !.kind = LoadedKind(@, c)]) /\ refused' = FALSE
                 ELSE UNCHANGED objs /\ refused' = TRUE
Auto(p) == /\ files[p] # None /\ UNCHANGED files
           /\ IF CanAuto(files[p].kind) THEN Len(objs) < MaxObjs /\ objs' = Append(objs, files[p]) /\ refused' = FALSE ELSE UNCHANGED objs /\ refused' = TRUE
Copy(x) == Len(objs) < MaxObjs /\ objs' = Append(objs, objs[x]) /\ UNCHANGED files /\ refused' = FALSE
=============================================================================
