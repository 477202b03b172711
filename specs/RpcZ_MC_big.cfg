SPECIFICATION MCSpec
CONSTANTS
  MaxRPC = 2
  MaxNow = 2
  Meths = {1, 2}
  Stats = {0, 1, 2}
INVARIANTS Faithful Complete
CHECK_DEADLOCK FALSE
