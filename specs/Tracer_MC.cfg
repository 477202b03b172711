SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Spans = {1}
  MaxOps = 3
INVARIANTS Once Nobody
PROPERTY Ends
CHECK_DEADLOCK FALSE
