SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 2
 Ts = {0, 7, 300}
 Os <- OsQ
 MaxCalls = 2
INVARIANTS
 Range
 OptimalBest
 CreditedWereUsed
