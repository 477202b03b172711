SPECIFICATION MCFair
CONSTANTS
  Threads = {1, 2}
  Rows = {1, 2}
  Cap = 2
  MaxOps = 4
INVARIANTS Bounded NothingLost Answers
PROPERTIES Ordered Return
CHECK_DEADLOCK FALSE
