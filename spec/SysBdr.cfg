SPECIFICATION Spec
CONSTANTS Part = "bdr"  Heur = TRUE  N = 2  NF = 2  DualMax = 2  Few = FALSE
 MaxIts <- MI
INVARIANTS NoColumnTwice Bounded OptimalBounds ChosenWithinBound
PROPERTY Ends
CHECK_DEADLOCK FALSE
