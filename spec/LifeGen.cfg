SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 NP = 2
 ND = 2
 NE = 2
 MaxLen = 5
 Fresh = TRUE
 Clear = TRUE
 Gen = TRUE
INVARIANTS
 Conforms
 FittedIffModel
