SPECIFICATION ZSpec
CONSTANTS
  Bounds <- TBounds
  Second = 1000000
  DefCap = 10
  MaxCap = 100000
CONSTRAINT Mark
POSTCONDITION TracePost
CHECK_DEADLOCK FALSE
