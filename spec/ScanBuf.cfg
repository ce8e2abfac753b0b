SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Prefix
INVARIANT Faithful
INVARIANT NeverStuck Stutter
INVARIANT Show
