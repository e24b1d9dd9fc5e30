SPECIFICATION GenSpec
CONSTANTS
  Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Vals = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  MaxOps = 14
  InPlace = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
