SPECIFICATION TSpec
CONSTANTS
  MaxLen = 255
  MaxVarint = 10
  Big = 100000000
CONSTRAINT Mark
POSTCONDITION TracePost
CHECK_DEADLOCK FALSE
