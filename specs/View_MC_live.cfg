SPECIFICATION MCFair
CONSTANTS
  DefPeriod = 2
  Meters = {1}
  Exps = {1}
  MaxNow = 2
  MaxRec = 1
  MaxCmd = 2
  MaxSess = 1
  ViewSet <- Views1

PROPERTIES Answered Stops
CHECK_DEADLOCK FALSE
