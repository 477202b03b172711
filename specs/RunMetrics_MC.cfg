SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 5
  Others = {1}
INVARIANTS OneProducer OthersKept Names
CHECK_DEADLOCK FALSE
