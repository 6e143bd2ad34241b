SPECIFICATION Spec
CONSTANT Kind = "ndcal"
INVARIANT GPrint
