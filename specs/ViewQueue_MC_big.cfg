SPECIFICATION MCFair
CONSTANTS
  Threads = {1, 2, 3}
  Rows = {1, 2}
  Cap = 1
  MaxOps = 5
INVARIANTS Bounded NothingLost Answers
PROPERTIES Ordered Return
CHECK_DEADLOCK FALSE
