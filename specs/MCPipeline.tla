----------------------------- MODULE MCPipeline -----------------------------
(* Every order of steps on small datasets of mixed levels.  A pixel's flag    *)
(* word is followed along: it may take any value the step's flag rule allows. *)
(* Flags are never lost, a level is reached only through the previous one,    *)
(* and no frame is invented.                                                  *)
EXTENDS PipelineOps
CONSTANTS Depth
VARIABLES s, q, hist, n
vars == <<s, q, hist, n>>
Words == {0, 4, 64, 129, 2, 6, 66, 68, 131, 133, 130, 1, 3, 160, 32}
FrameSets == {<<>>} \cup {<<a>> : a \in {"L1", "L2a", "L3"}} \cup {<<a, b>> : a \in {"L1", "L2b"}, b \in {"L1", "L2a", "L4"}}
Init == /\ \E ls \in FrameSets \ {<<>>} : s = [fr |-> [i \in DOMAIN ls |-> [id |-> i, lvl |-> ls[i], unit |-> "DN", name |-> i, sat |-> 0, ref |-> 0]],
                                              area |-> "full", dim |-> 2, mixed |-> FALSE, bias |-> FALSE]
        /\ q \in {0, 4, 129}
        /\ hist = [i \in DOMAIN s.fr |-> <<s.fr[i].lvl>>]
        /\ n = 0
Next == /\ n < Depth
        /\ \E step \in Steps \ {"do_psf_subtraction", "find_star", "crop", "northup"}, opt \in {0, 2} :
             /\ ~MustFail(s, step, opt)
             /\ \E kept \in {<<1>>, [i \in DOMAIN s.fr |-> i]} :
                  /\ s' = [s EXCEPT !.fr = OutFrames(s.fr, step, opt, kept)]
                  /\ hist' = [i \in DOMAIN s'.fr |-> IF IsLevel(step) THEN Append(hist[i], s'.fr[i].lvl) ELSE hist[IF step = "combine_subexposures" THEN 1 ELSE i]]
             /\ IF Resamples(step) THEN q' = q ELSE \E o \in Words \cup {q}, c \in {0, 4} : FlagOk(step, opt, q, c, o) /\ q' = o
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
FlagsKept == [][SubFlags(q, q')]_vars
NoNewFrames == [][{s'.fr[i].id : i \in DOMAIN s'.fr} \subseteq {s.fr[i].id : i \in DOMAIN s.fr} /\ Len(s'.fr) <= Len(s.fr)]_vars
LevelOrder == \A i \in DOMAIN hist : \A j \in 1..(Len(hist[i]) - 1) :
                \E st \in DOMAIN LevelStep : LevelStep[st] = <<hist[i][j], hist[i][j + 1]>>
NoSkip == \A st \in DOMAIN LevelStep : \A s2 \in DOMAIN LevelStep : LevelStep[st][1] = LevelStep[s2][1] => st = s2
OwnUnits == \A i \in DOMAIN s.fr : s.fr[i].unit \in {"DN"} \cup {Unit[k] : k \in DOMAIN Unit}
=============================================================================
