INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT ShowOk
