SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NF = 2
 N = 3
 MaxOps = 3
 Gen = FALSE
INVARIANTS
 PricingModelExact
 MasterCostExact
 Certificate
 NoDuplicates
