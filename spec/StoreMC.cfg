SPECIFICATION MCSpec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxOps = 4
  InPlace = FALSE
INVARIANTS NoMixture HeldIntact Agrees
VIEW V
CHECK_DEADLOCK FALSE
