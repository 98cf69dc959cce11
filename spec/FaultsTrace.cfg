INIT Init
NEXT Next
INVARIANT CompleteOrFailed
CHECK_DEADLOCK FALSE
