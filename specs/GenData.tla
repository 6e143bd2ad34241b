------------------------------ MODULE GenData ------------------------------
(* Random histories of the data model for replay into corgidrp.data.          *)
EXTENDS DataOps, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES s, ops, cfg, tries
vars == <<s, ops, cfg, tries>>
R(S) == RandomElement(S)
Bag == <<"new", "copy", "copy", "headercopy", "take", "take", "take2", "cube", "cube", "cube", "frame", "frame", "frame", "hdr", "hdr", "hdr",
         "update", "update", "adderr", "adderr", "adderr", "rescale", "rescale", "frameadd", "frameadd", "framerescale">>
Forms == {1, 2, 3, 4}
NewOp(t, tr, n, L) == [op |-> "new", track |-> tr, form |-> R(Forms), fr |-> [i \in 1..n |->
     [d |-> R(0..50), e |-> [k \in 1..L |-> R(0..9)], q |-> R(0..255), h |-> 1000 * t + i]]]
RandTrack(x) == IF cfg.mode = "mixed" THEN R(BOOLEAN) ELSE cfg.mode = "on"
Subseq2(n) == LET p == R({<<x, y>> \in (1..n) \X (1..n) : x <= y}) IN [i \in 1..(p[2] - p[1] + 1) |-> p[1] + i - 1]
Cand(k, d, i, t, tr) ==
  LET N == Len(s.ds[d].fr) IN
  CASE k = "new" -> NewOp(t, tr, R(1..3), IF tr THEN R(1..3) ELSE 1)
    [] k \in {"copy", "headercopy"} -> [op |-> k, d |-> d, form |-> R(Forms), track |-> tr]
    [] k = "take" -> LET w == R(1..3) IN
         [op |-> "take", d |-> d, form |-> R(Forms), track |-> tr,
          idx |-> IF w = 1 THEN [j \in 1..N |-> <<d, N + 1 - j>>]
                  ELSE LET q == Subseq2(N) IN [j \in DOMAIN q |-> <<d, q[j]>>]]
    [] k = "take2" -> LET d2 == R(DOMAIN s.ds) i2 == R(1..Len(s.ds[d2].fr)) IN
         [op |-> "take", d |-> d, form |-> 5, track |-> tr, idx |-> <<<<d2, i2>>, <<d, i>>>>]
    [] k \in {"cube", "frame"} -> [op |-> k, d |-> d, i |-> i, c |-> R({"d", "e", "q"}), v |-> R(0..60), form |-> R(Forms), track |-> tr]
    [] k = "hdr" -> [op |-> k, d |-> d, i |-> i, c |-> R({"pri", "ext", "err", "dqh", "name"}), v |-> t * 1000 + 500, form |-> 1, track |-> tr]
    [] k = "update" -> LET L == R(1..3) w == R(1..5) IN
         [op |-> k, d |-> d, track |-> tr, form |-> R(Forms), v |-> IF R(BOOLEAN) THEN 0 ELSE t * 1000 + 700,
          nd |-> IF w \in {1, 4} THEN [j \in 1..N |-> R(0..60)] ELSE <<>>,
          nq |-> IF w \in {2, 4} THEN [j \in 1..N |-> R(0..255)] ELSE <<>>,
          ne |-> IF w \in {3, 4} THEN [j \in 1..N |-> [m \in 1..L |-> R(0..9)]] ELSE <<>>]
    [] k \in {"adderr", "rescale"} -> LET one == R(0..4) f == R(1..2) IN
         [op |-> k, d |-> d, id |-> t, track |-> tr, form |-> f, t |-> [j \in 1..N |-> IF f = 1 THEN one ELSE R(0..4)]]
    [] k \in {"frameadd", "framerescale"} -> [op |-> k, d |-> d, i |-> i, v |-> R(0..4), id |-> t, track |-> tr, form |-> 1]
Init == s = Empty /\ ops = <<>> /\ cfg = [mode |-> "", dim |-> 0] /\ tries = 0
Start == /\ tries = 0
         /\ cfg' = [mode |-> R({"on", "off", "mixed"}), dim |-> IF R(1..4) = 1 THEN 3 ELSE 2]
         /\ LET tr == cfg'.mode # "off" IN
            \E o \in {NewOp(1, tr, R(1..4), IF tr THEN R(1..3) ELSE 1)} : s' = Apply(s, o) /\ ops' = <<o>>
         /\ tries' = 1
Step == /\ tries > 0 /\ tries < Depth
        /\ \E k \in {Bag[R(DOMAIN Bag)]}, d \in {R(DOMAIN s.ds)} :
             \E i \in {R(DOMAIN s.ds[d].fr)}, tr \in {RandTrack(0)} :
               \E o \in {Cand(k, d, i, tries + 1, tr)} :
                 IF /\ Enabled(s, o) /\ (o.op \in {"new", "copy", "headercopy", "take"} => Len(s.ds) < 7)
                    /\ ~(cfg.dim = 3 /\ o.op \in {"rescale", "framerescale", "update"})
                 THEN s' = Apply(s, o) /\ ops' = Append(ops, o)
                 ELSE UNCHANGED <<s, ops>>
        /\ tries' = tries + 1
        /\ UNCHANGED cfg
Spec == Init /\ [][Start \/ Step]_vars
GPrint == tries = Depth => PrintT("VJ " \o ToJson([ops |-> ops, cfg |-> cfg]))
GInv == Linked(s) /\ Apart(s)
=============================================================================
