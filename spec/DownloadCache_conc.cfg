CONSTANTS Calls = {1, 2, 3}
 Chunks = 2
 MaxActive = 2
 Faults = {"reset"}
 Bug = "none"
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT WholeOrAbsent
INVARIANT RightResults
INVARIANT HealthyCallsSucceed
INVARIANT Out
