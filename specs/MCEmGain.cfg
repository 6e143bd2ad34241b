INIT Init
NEXT Next
INVARIANTS Positive MeasuredWins AppliedNext CommandedLast
