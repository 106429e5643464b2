CONSTANTS
  Slack = 200
  Inf = 1000000
  Limits = {0, 1500}
  Steps = 3
  Sizes = {1}
  Ns = {1}
  Firsts = {"TERM", "INT"}
  Intrs = {"INT", "TERM"}
  Waits = {300, 1000}
  KeepHist = FALSE
  Holder = {FALSE, TRUE}
SPECIFICATION GSpec
INVARIANTS NothingLost NoEarlySignal BoundedEnd Undisturbed Escalates Progress
