SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2, 3}
  MaxMsgs = 1
  Defs = {2}
  Opts = {0}
INVARIANTS Agree Chain Total TagsOK
PROPERTY Frozen
CHECK_DEADLOCK FALSE
