SPECIFICATION Spec
INVARIANT OncePerName
INVARIANT Kept
INVARIANT Counted
INVARIANT Show
PROPERTY Grows
