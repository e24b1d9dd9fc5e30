SPECIFICATION Spec
CONSTANTS
  Codes = {1, 2}
  Forks = {0}
  Names = {1, 2}
  Inputs = {0}
  MaxFns = 3
  MaxObjs = 2
  MaxLibs = 2
  MaxSets = 1
  MaxOps = 10
INVARIANT Lasting
INVARIANT OneEach
CHECK_DEADLOCK FALSE
VIEW View
