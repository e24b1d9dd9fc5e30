SPECIFICATION MCSpec
CONSTANTS
  Keys = {1, 2, 3}
  MaxOps = 6
  Profile = "all"
  Workers = {1, 2}
  Helpers = {"self", "missing", "silent"}
INVARIANTS TypeOK Bounded Once Busy Helped Answered
PROPERTIES Still Kept
VIEW MCView
CHECK_DEADLOCK FALSE
