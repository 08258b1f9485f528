SPECIFICATION TSpec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 12
  Kinds = {"build", "refuse", "compare", "save", "gen"}
  Mode = "trace"
CHECK_DEADLOCK FALSE
INVARIANT Finished
