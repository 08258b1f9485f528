SPECIFICATION Spec
CONSTANTS
  Mode = "check"
  Depth = 5
  MaxObjs = 3
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANT Shape
INVARIANT Laws
PROPERTY Untouched
