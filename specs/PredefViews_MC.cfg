SPECIFICATION MCSpec
CONSTANTS
  Kinds = {"gc", "hs"}
  Meths = {"a", "b"}
  Durs <- SmallDurs
  MaxReq = 2
  MaxReg = 2
INVARIANTS Once Filled Increasing Agree
CHECK_DEADLOCK FALSE
