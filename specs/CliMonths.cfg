SPECIFICATION Spec
CONSTANTS
  Mode = "months"
  Depth = 1
CHECK_DEADLOCK FALSE
