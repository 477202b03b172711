SPECIFICATION MCSpec
CONSTANTS
  MaxRPC = 2
  MaxNow = 1
  Meths = {1, 2}
  Stats = {1, 2}
INVARIANTS Faithful Complete
CHECK_DEADLOCK FALSE
