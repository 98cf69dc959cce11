SPECIFICATION Spec
CONSTANTS
  Mode = "pairs"
  MaxNodes = 60
CHECK_DEADLOCK FALSE
