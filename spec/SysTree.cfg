SPECIFICATION Spec
CONSTANTS Part = "tree"  Heur = FALSE  N = 2  NF = 1  DualMax = 1  Few = TRUE
 MaxIts <- NoLimit
INVARIANTS NoColumnTwice Bounded OptimalBounds ChosenWithinBound
PROPERTY Ends
CHECK_DEADLOCK FALSE
