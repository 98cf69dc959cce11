SPECIFICATION Spec
CONSTANTS
  Mode = "faults"
  MaxNodes = 60
CHECK_DEADLOCK FALSE
