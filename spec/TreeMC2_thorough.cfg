SPECIFICATION Spec
CONSTANTS MaxD = 5  Depth = 2  N = 3  MaxOps = 2  Gen = FALSE
  Vals = {0, 1, 2}
  Ths = {0, 1}
INVARIANTS Partition MasterExact BestIsBest PricingExact
CHECK_DEADLOCK FALSE
