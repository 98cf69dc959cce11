INIT TInit
NEXT TNext
CONSTANTS
  Goals = {}
  Threads = "each"
  OnOneThread <- One
INVARIANTS TypeOK OwnPace Nesting
PROPERTY Isolation
CHECK_DEADLOCK FALSE
