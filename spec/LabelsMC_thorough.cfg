SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Vocab = {1, 2, 3, 4}
 N = 6
 Gen = FALSE
INVARIANTS
 ClassesAreSorted
 PositionIsCode
 RoundTrip
 CodesAreDense
 RenamingKeepsCodes
 RenamingOfClasses
