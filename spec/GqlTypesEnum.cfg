INIT Init
NEXT Next
INVARIANT OneType
INVARIANT Results
INVARIANT Show
