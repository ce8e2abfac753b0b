INIT Init
NEXT Next
INVARIANT Paired
INVARIANT Once
INVARIANT Show
