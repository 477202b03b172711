SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2}
  MaxMsgs = 2
  Defs = {1, 2}
  Opts = {0, 1}
INVARIANTS Agree Chain Total TagsOK
PROPERTY Frozen
CHECK_DEADLOCK FALSE
