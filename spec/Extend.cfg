INIT Init
NEXT Next
INVARIANT PrefixHolds
CHECK_DEADLOCK FALSE
