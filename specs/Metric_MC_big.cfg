SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Names = {"a", "b"}
  MaxOps = 7
  Labels = {0, 1}
INVARIANTS NoLost Shape
PROPERTY Grow
CHECK_DEADLOCK FALSE
