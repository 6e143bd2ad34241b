----------------------------- MODULE SelectTrace -----------------------------
(* Binds SelectOps to l2a_to_l2b.frame_select.  Output frames are identified by   *)
(* name: e.out[j] = [i |-> index of the input frame of that name, same |-> pixels  *)
(* unchanged, bad |-> marked bad, sel |-> recorded criteria]; e.hist[i] = the       *)
(* reasons the history gives for input frame i ({} when it is not mentioned).      *)
EXTENDS TraceBase, SelectOps
TheFails(s, e) ==
  LET kept == Kept(e.frames, e.cfg)
      rej == {i \in DOMAIN e.frames : Rejected(e.frames[i], e.cfg)}
      want == IF e.discard THEN kept ELSE [i \in DOMAIN e.frames |-> i] IN
  IF kept = <<>> THEN Clause("S06_NoneLeft", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"S06_Accepted"}
  ELSE Clause("S06_Frames", [j \in DOMAIN e.out |-> e.out[j].i] = want)
       \cup Clause("S06_PixelsUnchanged", \A j \in DOMAIN e.out : e.out[j].same)
       \cup Clause("S06_Marked", \A j \in DOMAIN e.out : e.out[j].i \in DOMAIN e.frames =>
                      (e.out[j].bad <=> (e.out[j].i \in rej \/ e.frames[e.out[j].i].isbad)))
       \cup Clause("S06_CriteriaRecorded", \A j \in DOMAIN e.out :
                      e.out[j].sel = <<e.cfg.frac8, IF e.cfg.over THEN 1 ELSE 0, e.cfg.rms, e.cfg.rms, e.cfg.bias, e.cfg.bias>>)
       \cup Clause("S06_HistoryNames", \A i \in DOMAIN e.frames : \A j \in DOMAIN e.out : e.out[j].named[i] <=> (i \in rej))
       \cup Clause("S06_HistoryReasons", \A i \in rej : \A j \in DOMAIN e.out : ToSet(e.out[j].why[i]) = Reasons(e.frames[i], e.cfg))
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
