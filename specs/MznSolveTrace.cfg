SPECIFICATION TSpec
INVARIANTS CompleteIsComplete UnsatMeansNone
CHECK_DEADLOCK FALSE
