SPECIFICATION Spec
CONSTANTS
  Mode = "check"
  Depth = 1
CHECK_DEADLOCK FALSE
INVARIANT NothingWhenRejected
INVARIANT Agree
INVARIANT EveryFileOnce
INVARIANT OwnOutput
INVARIANT WholeYear
