SPECIFICATION Spec
CONSTANTS N = 4  Depth = 2
  Vals = {0, 1, 2}
  Ths = {0, 1}
  Cands <- CandSets
INVARIANTS Sound Complete ReachIsPaths AlikeSamePaths Implied
CHECK_DEADLOCK FALSE
