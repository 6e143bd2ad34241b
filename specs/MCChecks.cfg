INIT Init
NEXT Next
INVARIANTS Stronger Disjoint
