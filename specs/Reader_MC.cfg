SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Prods = {1, 2}
  MaxOps = 5
  MaxNow = 7
  MaxReads = 4
  DefaultInt <- MCDef
  MinInt <- MCMin
INVARIANTS ExportAllowed Quiet Once FlushIdle NoOrphan
CHECK_DEADLOCK FALSE
