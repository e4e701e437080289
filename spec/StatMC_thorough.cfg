SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Values <- ValBig
 MaxLen = 7
INVARIANTS
 MeanOk
 VarOk
 CountOk
 NonNegative
