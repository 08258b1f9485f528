SPECIFICATION Spec
CONSTANTS
  Models = {"m1"}
  Seeds = {"0", "1"}
  Ways = {"ctor", "attrs", "days"}
  Modes = {"seq", "par"}
  Exts = {"1"}
  Slots = {1, 2}
  Depth = 4
  Log = FALSE
INVARIANT Reproducible
PROPERTY Untouched
CHECK_DEADLOCK FALSE
