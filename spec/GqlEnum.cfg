INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT Show
