SPECIFICATION Spec
INVARIANT Paired
INVARIANT Show
