SPECIFICATION Spec
CONSTANTS MaxD = 2  Depth = 1  N = 3  MaxOps = 3  Gen = FALSE
  Vals = {0, 1, 2}
  Ths = {0, 1}
INVARIANTS Certificate
CHECK_DEADLOCK FALSE
