SPECIFICATION Spec
INVARIANTS Own Show
PROPERTIES Apart Fresh
CHECK_DEADLOCK FALSE
