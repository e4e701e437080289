SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NF = 2
 N = 3
 MaxOps = 4
 Gen = TRUE
INVARIANTS
 PricingModelExact
 MasterCostExact
 Certificate
 NoDuplicates
