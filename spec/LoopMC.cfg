SPECIFICATION Spec
CONSTANTS
 LevelSets <- LS
 MaxIts <- MI
 TLims <- TL
 MaxIter = 2
 MaxBatch = 1
 Durs = {0, 2}
 Gen = FALSE
INVARIANTS
 NothingAfterSuccess
 LowerLevelsFailed
 IntegerOnce
 OptimalMeansAllFailed
 TimeFlagMeansLate
 IterationBound
 EndsForOneReason
 CountsAdd
 TimesAdd
