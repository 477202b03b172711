SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2}
  MaxMsgs = 2
  Defs = {2}
  Opts = {0}
INVARIANTS Agree Chain Total TagsOK
PROPERTY Frozen
CHECK_DEADLOCK FALSE
