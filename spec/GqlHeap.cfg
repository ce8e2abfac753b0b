SPECIFICATION Spec
INVARIANT OncePerName
INVARIANT Show
PROPERTY Local
PROPERTY Grows
PROPERTY Fresh
