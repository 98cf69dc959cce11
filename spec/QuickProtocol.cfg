INIT Init
NEXT Next
INVARIANTS EachOnce StopsAtOnce Returned
CHECK_DEADLOCK FALSE
