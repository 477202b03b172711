SPECIFICATION MCSpec
CONSTANTS
  KeySet = {1, 2, 3, 4}
  BadKeys = {9}
  ValSet = {1}
  MaxObj = 3
  MaxGiven = 2
  Alphabet = {97, 45, 64, 65, 44}
  MaxLen = 7
  MaxKey <- SmallKey
  MaxTenant <- SmallTenant
  MaxSystem <- SmallSystem
  MaxPairs <- MCPairs
INVARIANTS Lists Grammar
PROPERTY Immutable
CHECK_DEADLOCK FALSE
