SPECIFICATION TSpec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 5
  Kinds = {}
  Mode = "trace"
CHECK_DEADLOCK FALSE
INVARIANT Finished
