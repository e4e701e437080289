SPECIFICATION Spec
CONSTANTS
 LevelSets <- LSGen
 MaxIts <- MIGen
 TLims <- TL
 MaxIter = 2
 MaxBatch = 1
 Durs = {0, 2}
 Gen = TRUE
INVARIANTS
 NothingAfterSuccess
 LowerLevelsFailed
 IntegerOnce
 OptimalMeansAllFailed
 TimeFlagMeansLate
 IterationBound
 EndsForOneReason
 CountsAdd
 TimesAdd
