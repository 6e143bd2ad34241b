INIT Init
NEXT Next
INVARIANTS NothingEnabled Allowing Enabling Clean AtLimitIsGood Full
