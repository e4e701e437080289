SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NF = 2
 N = 4
 MaxOps = 4
 Gen = FALSE
INVARIANTS
 PricingModelExact
 MasterCostExact
 Certificate
 NoDuplicates
