SPECIFICATION TSpec
CONSTANTS
  Models = {}
  Seeds = {}
  Ways = {}
  Modes = {}
  Exts = {}
  Slots = {1, 2}
  Depth = 0
  Log = TRUE
INVARIANT Stat
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
