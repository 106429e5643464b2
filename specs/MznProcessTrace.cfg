CONSTANTS
  Slack = 200
  Inf = 100000000
SPECIFICATION TSpec
INVARIANTS NothingLost BoundedEnd Undisturbed
CHECK_DEADLOCK FALSE
