----------------------------- MODULE GenPhoton -----------------------------
EXTENDS PhotonOps, Json, Randomization
VARIABLES c, t
R(X) == RandomElement(X)
Mostly(x, X) == IF RandomElement(1..10) <= 7 THEN x ELSE RandomElement(X)
Init == c = <<>> /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ \E n \in {R(1..9)}, dark \in {R(1..3) = 1}, trouble \in {R(1..2) = 1} :
           \E bin \in {IF R(1..3) = 1 THEN 0 ELSE IF trouble /\ R(1..5) = 1 THEN n + 1 ELSE R(1..n)} :
           c' = [n |-> n, dark |-> dark, bin |-> bin, seed |-> R(0..99999), dens |-> R(0..3), u |-> R(1..5),
                 mix |-> IF trouble /\ bin # 1 /\ n > 1 THEN Mostly("", {"EXPTIME", "EMGAIN_C", "KGAINPAR", "RN", "VISTYPE"}) ELSE "", where |-> R(1..n),
                 mode |-> IF trouble THEN Mostly("", {"swap"}) ELSE "", ispc |-> IF trouble THEN Mostly("yes", {"no", "absent"}) ELSE Mostly("yes", {"absent"}),
                 rn |-> IF trouble THEN Mostly(100, {0, -100}) ELSE 100, neg |-> trouble /\ R(1..10) = 1,
                 gain |-> Mostly("C", {"M", "A"}), smallgain |-> trouble /\ R(1..6) = 1, safe |-> Mostly(TRUE, {FALSE}),
                 low |-> trouble /\ R(1..5) = 1, mask |-> R(1..3) = 1, niter |-> IF trouble THEN Mostly(5, {0, -1}) ELSE Mostly(5, {2, 3, 8}),
                 md |-> IF dark THEN (IF trouble /\ R(1..5) = 1 THEN "good" ELSE "") ELSE Mostly("", {"good", "good2", "good3"} \cup (IF trouble THEN {"image", "analog", "thresh", "few", "nothresh"} ELSE {"few"})),
                 tf |-> Mostly("given", {"default"}), layers |-> R(1..2)]
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================
