SPECIFICATION Spec
CONSTANTS
  MaxUsers = 1
  MaxObjs = 2
  Depth = 1
  Kinds = {"build"}
  Mode = "all"
INVARIANT WellFormed
PROPERTY Grow
PROPERTY Local
CHECK_DEADLOCK FALSE
