INIT Init
NEXT Next
CONSTANTS
  Seed = 1
  Count = 120
INVARIANT Report
CHECK_DEADLOCK FALSE
