SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 6
  Statuses = {101, 103, 204, 404}
  Ids = {1}
  Remotes = {0, 1, 2}
  Locals = {0, 3}
INVARIANTS Knows Once Faithful Linked Ends

CHECK_DEADLOCK FALSE
