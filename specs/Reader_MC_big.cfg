SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Prods = {1, 2}
  MaxOps = 6
  MaxNow = 9
  MaxReads = 6
  DefaultInt <- MCDef
  MinInt <- MCMin
INVARIANTS ExportAllowed Quiet Once FlushIdle NoOrphan
CHECK_DEADLOCK FALSE
