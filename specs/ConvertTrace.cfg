SPECIFICATION TSpec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 3
  Kinds = {}
  Mode = "trace"
CHECK_DEADLOCK FALSE
INVARIANT Finished
