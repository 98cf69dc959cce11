INIT Init
NEXT Next
INVARIANTS SessionOK SegmentOK FlagsOK ConsumesAll NoReadAhead ReachGrows CoversOK
CHECK_DEADLOCK FALSE
