SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Names = {1, 2}
  MaxOps = 5
INVARIANTS Same Counted
PROPERTY FirstWins
CHECK_DEADLOCK FALSE
