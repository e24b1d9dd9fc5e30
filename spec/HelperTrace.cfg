INIT Init
NEXT Next
CONSTANTS
  Keys = {1, 2, 3}
INVARIANT Report
CHECK_DEADLOCK FALSE
