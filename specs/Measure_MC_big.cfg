SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  Names = {1, 2}
  MaxOps = 6
INVARIANTS Same Counted
PROPERTY FirstWins
CHECK_DEADLOCK FALSE
