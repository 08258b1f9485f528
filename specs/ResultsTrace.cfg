SPECIFICATION TSpec
CONSTANTS
  Mode = "trace"
  Depth = 14
  MaxObjs = 7
CHECK_DEADLOCK FALSE
INVARIANT Finished
