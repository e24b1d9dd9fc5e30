INIT Init
NEXT Next
CONSTANTS
  Max = 3
  Bytes = {0, 1, 12, 91, 95, 96, 98, 127, 128, 143, 144, 160, 230, 231, 232, 239, 254}
INVARIANTS RoundTrip Faithful Covered
CHECK_DEADLOCK FALSE
