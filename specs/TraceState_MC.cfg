SPECIFICATION MCSpec
CONSTANTS
  KeySet = {1, 2, 3}
  BadKeys = {9}
  ValSet = {1, 2}
  MaxObj = 2
  MaxGiven = 2
  Alphabet = {97, 45, 64, 65, 44}
  MaxLen = 6
  MaxKey <- SmallKey
  MaxTenant <- SmallTenant
  MaxSystem <- SmallSystem
  MaxPairs <- MCPairs
INVARIANTS Lists Grammar
PROPERTY Immutable
CHECK_DEADLOCK FALSE
