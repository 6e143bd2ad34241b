------------------------------- MODULE GenFind -------------------------------
EXTENDS FindOps, Json, Randomization
VARIABLES c, t
R(X) == RandomElement(X)
Mostly(x, X) == IF RandomElement(1..10) <= 6 THEN x ELSE RandomElement(X)
Init == c = <<>> /\ t = 0
Next == /\ t = 0 /\ t' = 1
        /\ \E h \in {R(11..17)}, w \in {R(11..17)}, n \in {R(0..4)} :
           c' = [h |-> h, w |-> w, f |-> Mostly(28, {10, 15, 20, 35}), thr |-> R({20, 25, 30, 40, 50}), seed |-> R(0..99999),
                 src |-> [i \in 1..n |-> [y |-> R(0..(h - 1)), x |-> R(0..(w - 1)), amp |-> R({8, 20, 60})]],
                 psf |-> Mostly(0, {-3, -2, -1, 1, 2, 5}), nan |-> Mostly("", {"disc", "spots", "corner", "outer"}),
                 wop |-> R(1..4) = 1, equal |-> R(1..8) = 1, stale |-> R(1..3) = 1, noise |-> R({"gauss", "grid", "none"})]
Spec == Init /\ [][Next]_<<c, t>>
GPrint == t = 1 => PrintT("VJ " \o ToJson(c))
=============================================================================
