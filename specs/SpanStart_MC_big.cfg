SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  MaxSpans = 3
  MaxApply = 2
INVARIANTS StartInv NoLostApply Untouched KeepsVals
PROPERTIES SpansFrozen CtxFrozen
CHECK_DEADLOCK FALSE
