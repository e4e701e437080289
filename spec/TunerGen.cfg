SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NVs = {2, 3}
 Flags = {1, 2}
 Explores = {1, 2}
 Scores <- ScGen
 MaxOps = 3
 Late = TRUE
 Gen = TRUE
INVARIANTS
 AlwaysAChoice
 BestIsAChoice
 ExplorationLength
 EveryObservationOnce
 FewFirst
