SPECIFICATION MCSpec
CONSTANTS
  Kinds = {"gc", "gs", "hc", "hs"}
  Meths = {"a", "b"}
  Durs <- SmallDurs
  MaxReq = 2
  MaxReg = 3
INVARIANTS Once Filled Increasing Agree
CHECK_DEADLOCK FALSE
