INIT Init
NEXT Next
INVARIANT Show
INVARIANT Forward
INVARIANT AllRead
