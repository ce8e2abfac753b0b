INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT RoundTrip
INVARIANT ShowOk
