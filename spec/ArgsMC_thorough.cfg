SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
 ScanFindsFaults
 CompleteIsWellFormed
 StartsComplete
 RefusedLeavesNoTrace
 ColumnsAreAccepted
 NothingBeforeBuilt
CONSTANTS
 Depths = {1, 2, 3}
 MaxV = 8
 MaxChanges = 2
 MaxCalls = 6
 Gen = FALSE
 Mode = "instances"
