SPECIFICATION MCSpec
CONSTANTS
  DefPeriod = 2
  Meters = {1}
  Exps = {1}
  MaxNow = 3
  MaxRec = 2
  MaxCmd = 3
  MaxSess = 1
  ViewSet <- Views2
INVARIANT Inv
PROPERTIES Isolated Final Kept
CHECK_DEADLOCK FALSE
