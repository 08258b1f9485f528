SPECIFICATION CSpec
CONSTANTS
  MaxUsers = 2
  MaxObjs = 5
  Depth = 3
  Kinds = {}
  Mode = "check"
CHECK_DEADLOCK FALSE
INVARIANT Settled
INVARIANT Twice
INVARIANT Written
PROPERTY Keeps
