SPECIFICATION TSpec
CONSTANT DefPeriod = 10000
CONSTRAINT Mark
POSTCONDITION TracePost
CHECK_DEADLOCK FALSE
