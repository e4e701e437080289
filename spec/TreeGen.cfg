SPECIFICATION Spec
CONSTANTS MaxD = 2  Depth = 2  N = 4  MaxOps = 3  Gen = TRUE
  Vals = {0, 1, 2, 3}
  Ths = {0, 1}
CHECK_DEADLOCK FALSE
