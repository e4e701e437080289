SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NVs = {1, 2, 3}
 Flags = {1, 2, 3}
 Explores = {0, 1, 3}
 Scores <- Sc
 MaxOps = 10
 Late = TRUE
 Gen = FALSE
INVARIANTS
 AlwaysAChoice
 BestIsAChoice
 ExplorationLength
 EveryObservationOnce
 FewFirst
