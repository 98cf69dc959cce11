SPECIFICATION Spec
CONSTANTS
  Goals <- SmallGoals
  Threads = "one"
INVARIANTS TypeOK OwnPace Nesting
PROPERTIES Isolation Ends
CHECK_DEADLOCK FALSE
