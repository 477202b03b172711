SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxVarint = 2
  Big = 100000000
  Bytes = {0, 1, 2, 31, 107, 128}
  MaxBytes = 7
  MaxCtx = 3
INVARIANT TagInv
PROPERTY ParentsStay
CHECK_DEADLOCK FALSE
