SPECIFICATION MCSpec
CONSTANTS
  Threads = {t1, t2}
  Spans = {s1, s2}
  Exps = {e1, e2}
  Budget = 3
SYMMETRY Sym
INVARIANT ExportInv
PROPERTY NoSecondEnd
CHECK_DEADLOCK FALSE
