INIT Init
NEXT Next
INVARIANTS EachOnce StopsAtOnce Returned LastIsEnd
CHECK_DEADLOCK FALSE
