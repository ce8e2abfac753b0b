INIT Init
NEXT Next
INVARIANT Stops
INVARIANT Reported
INVARIANT Complete
INVARIANT Prefix
INVARIANT Show
