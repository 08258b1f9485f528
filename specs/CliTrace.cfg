SPECIFICATION TSpec
CONSTANTS
  Mode = "trace"
  Depth = 1
CHECK_DEADLOCK FALSE
INVARIANT Finished
