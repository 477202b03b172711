SPECIFICATION MCSpec
CONSTANTS
  Letters = {1, 2}
  MaxLen = 2
  MaxExp = 3
INVARIANTS Refines Separates FlatCollides
CHECK_DEADLOCK FALSE
