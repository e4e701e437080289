SPECIFICATION Spec
CONSTANTS Part = "tree"  Heur = TRUE  N = 2  NF = 1  DualMax = 1  Few = TRUE
 MaxIts <- MI
INVARIANTS NoColumnTwice Bounded OptimalBounds ChosenWithinBound
PROPERTY Ends
CHECK_DEADLOCK FALSE
