SPECIFICATION Spec
CONSTANTS
  Mode = "walk"
  MaxNodes = 40
CHECK_DEADLOCK FALSE
