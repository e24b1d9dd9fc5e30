SPECIFICATION Spec
INVARIANTS Report Inv
CHECK_DEADLOCK FALSE
