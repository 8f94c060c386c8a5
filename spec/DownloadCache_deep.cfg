CONSTANTS Calls = {1, 2, 3, 4}
 Chunks = 3
 MaxActive = 3
 Faults = {"reset"}
 Bug = "none"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT WholeOrAbsent
INVARIANT RightResults
INVARIANT HealthyCallsSucceed
INVARIANT Out
