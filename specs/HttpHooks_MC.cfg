SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2}
  MaxOps = 3
  Max = 2
INVARIANTS Agree Silent Names
PROPERTIES Apart Ended
CHECK_DEADLOCK FALSE
