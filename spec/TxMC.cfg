SPECIFICATION Spec
CONSTANTS
  Codes = {1, 2}
  Forks = {1, 2}
  MaxDepth = 3
  MaxTold = 8
  MaxTx = 2
  Cached = TRUE
  Forget = TRUE
INVARIANTS SameEngine RightFork LogsLast
CHECK_DEADLOCK FALSE
