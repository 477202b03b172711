SPECIFICATION MCSpec
CONSTANTS
  Bounds <- MCBounds
  Second = 2
  DefCap = 2
  MaxCap = 3
  Threads = {1}
  Spans = {1, 2, 3}
  Names = {"n"}
  Codes = {0, 5}
  MaxNow = 5
  Caps = {0, 1}
INVARIANT StoreInv
CHECK_DEADLOCK FALSE
