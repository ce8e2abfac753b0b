INIT Init
NEXT Next
INVARIANT Show
INVARIANT Sound
