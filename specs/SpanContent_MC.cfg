SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Budget = 2
INVARIANTS ContentInv LruMeaning FifoMeaning
PROPERTY FinalFrozen
CHECK_DEADLOCK FALSE
