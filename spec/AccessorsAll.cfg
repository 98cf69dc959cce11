SPECIFICATION AccSpec
CONSTANTS
  Mode = "all"
  MaxNodes = 60
CHECK_DEADLOCK FALSE
