SPECIFICATION Spec
CONSTANTS
  Day = 6
  Ns = {1, 2}
  Nums = {1}
  Powers = {0, 1}
  Enl = {15}
  Zs = {16}
  Edges = {0, 2, 3, 6}
  MaxUsers = 2
  MaxApps = 1
  MaxWins = 2
  Mode = "all"
  Depth = 1
INVARIANTS Faithful Central NonEmpty
PROPERTY Kept
CHECK_DEADLOCK FALSE
