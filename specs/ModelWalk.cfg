SPECIFICATION Spec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 12
  Kinds = {"build", "refuse", "compare", "save", "gen"}
  Mode = "walk"
CHECK_DEADLOCK FALSE
