SPECIFICATION Spec
CONSTANT Comms <- FileComms
INVARIANTS TypeOK SumOfParts PrefPerSingle RowOK PartOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
