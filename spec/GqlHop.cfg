SPECIFICATION Spec
INVARIANT NoneLost
INVARIANT Again
INVARIANT Show
