SPECIFICATION Spec
CONSTANTS
  Mode = "shapes"
  MaxNodes = 60
CHECK_DEADLOCK FALSE
