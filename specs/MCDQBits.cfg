INIT Init
NEXT Next
INVARIANTS Inverse LsbLast Union Sub
