SPECIFICATION Spec
CONSTANTS
  Codes = {1}
  Forks = {13, 14}
  Names = {1, 2}
  Inputs = {0}
  Aot = {TRUE, FALSE}
  MaxFns = 3
  MaxOps = 5
INVARIANTS OwnMeaning Phases Distinct
PROPERTIES Kept Frozen
CHECK_DEADLOCK FALSE
