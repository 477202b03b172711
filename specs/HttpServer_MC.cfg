SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 3
  Statuses = {101, 103, 204, 404}
  Ids = {1}
  Remotes = {0, 1, 2}
  Locals = {0, 3}
INVARIANTS Knows Once Faithful Linked Ends
PROPERTY AllDone
CHECK_DEADLOCK FALSE
