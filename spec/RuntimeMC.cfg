SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxOpen = 2
  Select = {"plain", "hot", "tight", "two", "budget", "store", "mixed", "modes", "block"}
INVARIANTS OnlyItsOwn Flights Limits NothingOld NobodyForgotten NothingDangling Balanced
PROPERTIES Answered
CHECK_DEADLOCK FALSE
