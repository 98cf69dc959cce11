CONSTANTS MaxLen = 5
          MaxRoom = 11
SPECIFICATION Spec
INVARIANTS AsSaid Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
