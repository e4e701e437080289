SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
 ScanFindsFaults
 CompleteIsWellFormed
 StartsComplete
 RefusedLeavesNoTrace
 ColumnsAreAccepted
 NothingBeforeBuilt
CONSTANTS
 Depths = {1}
 MaxV = 4
 MaxChanges = 1
 MaxCalls = 7
 Gen = FALSE
 Mode = "calls"
