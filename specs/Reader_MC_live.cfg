SPECIFICATION Fair
CONSTANTS
  Threads = {1, 2}
  Prods = {1, 2}
  MaxOps = 4
  MaxNow = 6
  MaxReads = 4
  DefaultInt <- MCDef
  MinInt <- MCMin
PROPERTY StopReturns
CHECK_DEADLOCK FALSE
