SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Vocab = {1, 2, 3}
 N = 6
 Gen = TRUE
INVARIANTS
 ClassesAreSorted
 PositionIsCode
 RoundTrip
 CodesAreDense
 RenamingKeepsCodes
 RenamingOfClasses
