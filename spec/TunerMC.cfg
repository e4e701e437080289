SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NVs = {1, 2}
 Flags = {1, 2}
 Explores = {0, 2}
 Scores <- Sc
 MaxOps = 12
 Late = FALSE
 Gen = FALSE
INVARIANTS
 AlwaysAChoice
 BestIsAChoice
 ExplorationLength
 EveryObservationOnce
 FewFirst
