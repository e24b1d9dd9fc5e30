SPECIFICATION GenSpec
CONSTANTS
  Codes = {1, 2, 3, 4}
  Forks = {0, 5, 8, 11, 13, 14}
  Names = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Inputs = {0, 1, 2}
  Aot = {FALSE}
  MaxFns = 9
  MaxOps = 26
INVARIANT Emit
CHECK_DEADLOCK FALSE
