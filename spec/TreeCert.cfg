SPECIFICATION Spec
CONSTANTS MaxD = 2  Depth = 1  N = 2  MaxOps = 2  Gen = FALSE
  Vals = {0, 1, 2}
  Ths = {0, 1}
INVARIANTS Certificate
CHECK_DEADLOCK FALSE
