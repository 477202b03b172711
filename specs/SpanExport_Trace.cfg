SPECIFICATION TSpec
CONSTRAINT Mark
POSTCONDITION TracePost
INVARIANT ExportInv
CHECK_DEADLOCK FALSE
