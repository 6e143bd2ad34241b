------------------------------ MODULE MCPhoton ------------------------------
(* Eps is a probability growing with the mean, close to l for few electrons, and *)
(* lower thresholds count more; counting ignores flagged frames.                 *)
EXTENDS PhotonOps
CONSTANTS N
VARIABLES l, x, q
Us == {<<0, 1000>>, <<223, 1250>>, <<405, 1500>>, <<693, 2000>>}
Init == l = 0 /\ x = <<>> /\ q = <<>>
Next == \/ x = <<>> /\ l < 1500 /\ l' = l + 10 /\ UNCHANGED <<x, q>>
        \/ l = 0 /\ Len(x) < N /\ \E v \in 0..2, f \in {0, 4} : x' = Append(x, v) /\ q' = Append(q, f) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, x, q>>
Prob == \A ue \in Us : LET p == Eps(l, ue[1], ue[2]) IN
          /\ p >= 0 /\ p <= S /\ Eps(l + 10, ue[1], ue[2]) + 5 >= p /\ (l > 0 => Eps(l + 50, ue[1], ue[2]) > p)
          /\ (l <= 50 => AbsP(p - (l * S) \div ue[2]) <= 6)
          /\ (ue[1] = 0 /\ l <= 500 => AbsP(p - (l - Mul(l, l) \div 2 + Mul(Mul(l, l), l) \div 6)) <= 8)
G(s) == [k \in DOMAIN x |-> [x |-> <<s[k]>>, q |-> <<q[k]>>]]
CountsOk == x # <<>> => /\ Counts(G(x), 1, 1) <= UsableP(G(x), 1) /\ Counts(G(x), 1, 1) <= Counts(G(x), 1, 0) /\ Counts(G(x), 1, 2) = 0
                        /\ \A v \in 0..2 : Counts(G([k \in DOMAIN x |-> IF q[k] = 0 THEN x[k] ELSE v]), 1, 1) = Counts(G(x), 1, 1)
=============================================================================
