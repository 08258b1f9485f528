SPECIFICATION Spec
CONSTANTS
  Mode = "walk"
  Depth = 1
CHECK_DEADLOCK FALSE
