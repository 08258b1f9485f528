SPECIFICATION CSpec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 5
  Kinds = {}
  Mode = "walk"
CHECK_DEADLOCK FALSE
