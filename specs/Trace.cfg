SPECIFICATION TSpec
CONSTRAINT Mark
POSTCONDITION TracePost
CHECK_DEADLOCK FALSE
