INIT Init
NEXT Next
INVARIANT PumpHolds
CHECK_DEADLOCK FALSE
