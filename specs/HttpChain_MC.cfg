SPECIFICATION MCSpec
CONSTANTS
  Reqs = {1, 2}
  Locals = {1}
  Defs = {3}
  Opts = {0}
INVARIANTS Linked Tree OneRoot OneDecision State
CHECK_DEADLOCK FALSE
