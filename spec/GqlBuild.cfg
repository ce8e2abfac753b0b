INIT Init
NEXT Next
VIEW Same1
INVARIANT Expressible
INVARIANT Show
CHECK_DEADLOCK FALSE
