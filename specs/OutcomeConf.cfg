SPECIFICATION Spec
CONSTANT Cfgs <- FileCfgs
INVARIANTS Collect
POSTCONDITION Agree
CHECK_DEADLOCK FALSE
