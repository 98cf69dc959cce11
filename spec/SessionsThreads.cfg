SPECIFICATION Spec
CONSTANTS
  Goals <- SmallGoals
  Threads = "each"
INVARIANTS TypeOK OwnPace Nesting
PROPERTIES Isolation Ends
CHECK_DEADLOCK FALSE
