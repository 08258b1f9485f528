SPECIFICATION Spec
CONSTANTS
  Mode = "walk"
  Depth = 14
  MaxObjs = 7
CHECK_DEADLOCK FALSE
