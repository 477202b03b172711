SPECIFICATION MCSpec
CONSTANTS
  Ids = {1}
  MaxOps = 6
  Statuses = {101, 200, 404}
  Locals = {0, 1, 2}
INVARIANTS Agree Child
PROPERTY Frozen
CHECK_DEADLOCK FALSE
