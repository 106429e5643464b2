SPECIFICATION TSpec
INVARIANTS Distinct FailNotOK Delivered
CHECK_DEADLOCK FALSE
