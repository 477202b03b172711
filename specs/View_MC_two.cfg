SPECIFICATION MCSpec
CONSTANTS
  DefPeriod = 2
  Meters = {1, 2}
  Exps = {}
  MaxNow = 1
  MaxRec = 1
  MaxCmd = 2
  MaxSess = 2
  ViewSet <- Views1
INVARIANT Inv
PROPERTIES Isolated Final Kept
CHECK_DEADLOCK FALSE
