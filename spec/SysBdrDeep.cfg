SPECIFICATION Spec
CONSTANTS Part = "bdr"  Heur = FALSE  N = 3  NF = 2  DualMax = 3  Few = FALSE
 MaxIts <- MI
INVARIANTS NoColumnTwice Bounded OptimalBounds ChosenWithinBound
PROPERTY Ends
CHECK_DEADLOCK FALSE
