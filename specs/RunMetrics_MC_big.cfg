SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 6
  Others = {1}
INVARIANTS OneProducer OthersKept Names
CHECK_DEADLOCK FALSE
