----------------------------- MODULE LevelTrace -----------------------------
(* Binds LevelOps to update_to_l2a/l2b/l3/l4/tda.  e.out: the resulting frames; *)
(* e.same: pixels, errors and flags equal the input's; e.kept: the input       *)
(* dataset is exactly as before; e.others: no other header or name part changed. *)
EXTENDS TraceBase
L == INSTANCE LevelOps
Nx(s, e) == IF e.op = "set" THEN [s EXCEPT ![e.i].lvl = e.l]
            ELSE IF L!Accepts(s, e.k) /\ ~e.nocal THEN L!Update(s, e.k, e.ct, e.fx) ELSE s
TheFails(s, e) ==
  IF e.op = "set" THEN {}
  ELSE Clause("L01_InputKept", e.kept)
       \cup (IF e.nocal THEN Clause("L01_NeedsFluxcal", e.exc # "")
             ELSE IF ~L!Accepts(s, e.k) THEN Clause("L01_Rejected", e.exc = "ValueError")
             ELSE IF e.exc # "" THEN {"L01_Accepted"}
             ELSE LET n == Nx(s, e) IN
                  IF Len(e.out) # Len(n) THEN {"L01_Frames"}
                  ELSE Clause("L01_Level", \A i \in DOMAIN n : e.out[i].lvl = n[i].lvl)
                       \cup Clause("L01_Name", \A i \in DOMAIN n : e.out[i].tok = n[i].tok)
                       \cup Clause("L01_Calibrations", \A i \in DOMAIN n : e.out[i].ct = n[i].ct /\ e.out[i].fx = n[i].fx)
                       \cup Clause("L01_PixelsUnchanged", e.same)
                       \cup Clause("L01_RestUnchanged", e.others))
TheStart(tr) == tr.meta.start
TheNext(s, e) == Nx(s, e)
=============================================================================
