SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 2
 Ts = {0, 7, 300}
 Os <- OsT
 MaxCalls = 3
INVARIANTS
 Range
 OptimalBest
 CreditedWereUsed
