SPECIFICATION Spec
CONSTANTS
  Models = {"m1", "m2", "m3"}
  Seeds = {"0", "1", "-7", "big"}
  Ways = {"ctor", "attrs", "num", "days", "load"}
  Modes = {"seq", "par"}
  Exts = {"1", "0"}
  Slots = {1, 2}
  Depth = 10
  Log = TRUE
CHECK_DEADLOCK FALSE
