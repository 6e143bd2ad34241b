------------------------------ MODULE GenSort ------------------------------
(* Random pupil-imaging campaigns, grown segment by segment: mean-frame runs,    *)
(* rises of equal blocks (closed or not), nonlinearity rises for other gains,     *)
(* stray frames, and jumps in the numbering.                                      *)
EXTENDS SortOps, Json, Randomization
VARIABLES c, k, call, t
R(S) == RandomElement(S)
Init == c = <<>> /\ k = 0 /\ call = <<>> /\ t = 0
Rep(n, g, tt, k0) == [i \in 1..n |-> [id |-> k0 + i, g |-> g, t |-> tt]]
\* a rise of n blocks of b frames from exposure t0, closed by repeating block r (0: not closed)
RECURSIVE RiseSeq(_, _, _, _, _, _)
RiseSeq(n, b, g, t0, st, k0) == IF n = 0 THEN <<>> ELSE Rep(b, g, t0, k0) \o RiseSeq(n - 1, b, g, t0 + st, st, k0 + b)
Grow(seg, jump) == c' = c \o [i \in DOMAIN seg |-> [seg[i] EXCEPT !.id = @ + jump]] /\ k' = k + Len(seg) + jump
Jump == {R({0, 0, 0, 1, 2})}
Mean == \E n \in {R(2..8)}, j \in Jump, tt \in {R({5, 5, 5, 2})} : Grow(Rep(n, 1, tt, k), j)
KG == \E n \in {R(2..5)}, b \in {R(1..3)}, t0 \in {R({1, 2, 6, 7})}, st \in {R({1, 1, 2})}, j \in Jump : \E r \in {R(0..(n - 1))} :
        LET q == RiseSeq(n, b, 1, t0, st, k) IN Grow(IF r = 0 THEN q ELSE q \o Rep(b, 1, t0 + (r - 1) * st, k + n * b), j)
NLin == \E n \in {R(2..5)}, g \in {R({2, 3, 5})}, t0 \in {R({1, 2, 5})}, st \in {R({1, 2})}, j \in Jump : \E r \in {R(0..(n - 1))} :
        LET q == RiseSeq(n, 1, g, t0, st, k) IN Grow(IF r = 0 THEN q ELSE q \o Rep(1, g, t0 + (r - 1) * st, k + n), j)
Stray == \E n \in {R(1..2)}, g \in {R({1, 1, 2, 7})}, tt \in {R(1..9)}, j \in Jump : Grow(Rep(n, g, tt, k), j)
Break == \E d \in {R(1..9)} : k' = k + d /\ UNCHANGED c
Gap == Break /\ UNCHANGED <<call, t>>
Finish == /\ t' = 1 /\ UNCHANGED <<c, k>>
          /\ \E cal \in {R({"k-gain", "kgain", "K-GAIN", "KGain", "non-lin", "nonlin", "Non-Linearity", "nonlinearity", "emgain", "k_gain", "", "lin"})}, sh \in {R({0, 0, 1, 2, 3, 4})} :
               call' = <<cal, sh>>
Done == TRUE
Next == IF t = 1 THEN FALSE
        ELSE \E z \in {R(1..10)} :
             CASE z \in 1..2 -> Mean /\ UNCHANGED <<call, t>>
               [] z \in 3..6 -> KG /\ UNCHANGED <<call, t>>
               [] z \in 7..8 -> NLin /\ UNCHANGED <<call, t>>
               [] z = 9 -> Stray /\ UNCHANGED <<call, t>>
               [] OTHER -> Gap
NextF == IF t = 0 /\ Len(c) > 8 /\ Len(c) < 60 /\ Cardinality(MeanTimes(Unity(c))) = 1 /\ (\A mt \in MeanTimes(Unity(c)) : Settled(UBlocks(c, mt)))
         THEN Next \/ Finish ELSE Len(c) < 60 /\ Next
Spec == Init /\ [][NextF]_<<c, k, call, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson([c |-> c, cal |-> call[1], sh |-> call[2]]))
=============================================================================
