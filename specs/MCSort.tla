------------------------------- MODULE MCSort -------------------------------
(* Every short campaign over a small alphabet: the sets are disjoint, of the    *)
(* right gain, and independent of the file order.                               *)
EXTENDS SortOps
CONSTANTS N
VARIABLES c, k
Init == c = <<>> /\ k = 0
Next == /\ Len(c) < N
        /\ \E g \in {1, 2}, t \in 1..3, gap \in {1, 2} :
             /\ k' = k + gap
             /\ c' = Append(c, [id |-> k', g |-> g, t |-> t])
Spec == Init /\ [][Next]_<<c, k>>
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
U == Unity(c)
Ok == SetOf(U) # {} => \A mt \in MeanTimes(U) :
        LET m == MeanIds(U, mt) IN
        /\ MeanIds(Rev(U), mt) = m /\ m # {}
        /\ \A f \in SetOf(c) : f.id \in m => f.g = 1 /\ f.t = mt
        /\ HasKGain(c, mt) = HasKGain(Rev(c), mt)
        /\ (HasKGain(c, mt) => LET s == KGainIds(c, mt) IN
              /\ s \cap m = {} /\ s \in KGainOptions(c, mt) /\ m \in MeanOptions(U, mt)
              /\ s = KGainIds(Rev(c), mt)
              /\ \A f \in SetOf(c) : f.id \in s => f.g = 1 /\ f.t # mt)
NL == \A g \in {2} : LET s == NonLinIds(c, g) q == SelectSeq(ById(c), LAMBDA f : f.id \in s) IN
        /\ s = NonLinIds(Rev(c), g) /\ s \in NonLinOptions(c, g)
        /\ (s # {} => Len(q) >= 3 /\ Cardinality({f.t : f \in SetOf(q)}) = Len(q) - 1)
=============================================================================
