SPECIFICATION MCSpec
CONSTANTS
  IDs = {0, 1, 16, 255}
  Opts <- MCOpts
  TSLists <- MCLists
  Alpha = {48, 49, 45, 97, 61, 44}
  MaxStr = 4
  MaxOps = 2
  TidLen <- One
  SidLen <- One
  MaxTSLen <- MC_TSLen
  MaxSDLen <- MC_SDLen
INVARIANTS RoundTrip Binary Total Decimal
CHECK_DEADLOCK FALSE
