INIT EInit
NEXT ENext
INVARIANT EShow
INVARIANT DeadStaysDead
CHECK_DEADLOCK FALSE
