SPECIFICATION MCSpec
CONSTANTS
  DefPeriod = 2
  Meters = {1}
  Exps = {1}
  MaxNow = 2
  MaxRec = 2
  MaxCmd = 2
  MaxSess = 1
  ViewSet <- Views1
INVARIANT Inv
PROPERTIES Isolated Final Kept
CHECK_DEADLOCK FALSE
