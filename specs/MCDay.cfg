SPECIFICATION Spec
CONSTANT Cfgs <- FileCfgs
INVARIANTS TypeOK Confined EdgesOK Idle BudgetOK OnTimeIsUsed Missed Disj NoStraddle LongEnough WholeUnits PeakRule CycleRule FreeOK Explained ErrorOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
