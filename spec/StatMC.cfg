SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Values <- Val
 MaxLen = 5
INVARIANTS
 MeanOk
 VarOk
 CountOk
 NonNegative
