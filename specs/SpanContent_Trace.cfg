
SPECIFICATION TSpec
CONSTRAINT Mark
POSTCONDITION TracePost
INVARIANT ContentInv
CHECK_DEADLOCK FALSE
