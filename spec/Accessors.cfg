SPECIFICATION AccSpec
CONSTANTS
  Mode = "few"
  MaxNodes = 60
CHECK_DEADLOCK FALSE
