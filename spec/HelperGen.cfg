SPECIFICATION GenSpec
CONSTANTS
  Keys = {1, 2, 3}
  MaxOps = 10
  Profile = "pause"
  Workers = {1, 2}
  Helpers = {"self"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
