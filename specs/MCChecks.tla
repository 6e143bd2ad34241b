------------------------------ MODULE MCChecks ------------------------------
EXTENDS Checks
VARIABLE v
Kinds == {"number", "array", "string", "dict", "other"}
Init == \E k \in Kinds, c, i, b, q \in BOOLEAN, s \in -1..1, n \in 0..4 :
          v = [scalar |-> k = "number", cplx |-> c /\ ~i, int |-> i, sign |-> s, str |-> k = "string",
               bool |-> b /\ i /\ k = "number" /\ s >= 0, dict |-> k = "dict",
               ndim |-> IF k = "array" THEN n ELSE IF k = "number" THEN 0 ELSE -1, square |-> q, realdt |-> k = "array" /\ ~c]
Next == UNCHANGED v
Stronger == \A p \in Lattice : Accepts(p[1], v) => Accepts(p[2], v)
Disjoint == \A p \in Exclusive : ~(Accepts(p[1], v) /\ Accepts(p[2], v))
=============================================================================
