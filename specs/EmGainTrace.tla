----------------------------- MODULE EmGainTrace -----------------------------
(* One event = one call of a step that uses the EM gain.  e.frames[i].h is the  *)
(* frame's header gains, e.obs[i] the effective gain observed in the result      *)
(* (for "photnoise" the excess factor squared, for "pc" a signature of the       *)
(* result, compared with that of frames that have only a commanded gain:         *)
(* e.sig[k] = <<gain, signature>>).                                             *)
EXTENDS TraceBase, EmGainOps
\* steps that take one gain for the whole group take it from the first frame; the gains of the group agree there
Eff(e, i) == IF e.step \in {"synthdark", "pc"} THEN EmGain(e.frames[1].h) ELSE EmGain(e.frames[i].h)
Want(e, i) == CASE e.step = "photnoise" -> IF Eff(e, i) > 1 THEN 2 ELSE 1
                [] e.step = "pc" -> (CHOOSE s \in ToSet(e.sig) : s[1] = Eff(e, i))[2]
                [] OTHER -> Eff(e, i)
TheFails(s, e) ==
  IF e.exc # "" THEN {"S01_Accepted_" \o e.step}
  ELSE IF Len(e.obs) # (IF e.step \in {"synthdark", "pc"} THEN 1 ELSE Len(e.frames)) THEN {"S01_FrameCount_" \o e.step}
  ELSE Clause("S01_Gain_" \o e.step, \A i \in DOMAIN e.obs : e.obs[i] = Want(e, i))
TheStart(tr) == 0
TheNext(s, e) == s + 1
=============================================================================
