INIT Init
NEXT Next
CONSTANT Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
INVARIANT Report
CHECK_DEADLOCK FALSE
