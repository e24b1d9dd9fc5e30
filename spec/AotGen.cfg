SPECIFICATION GenSpec
CONSTANTS
  Codes = {1, 2, 3, 4}
  Forks = {0, 5, 8, 11, 13, 14}
  Names = {1, 2, 3, 4, 5, 6}
  Inputs = {0, 1, 2}
  MaxFns = 8
  MaxObjs = 4
  MaxLibs = 5
  MaxSets = 6
  MaxOps = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
