CONSTANTS Calls = {1, 2, 3}
 Chunks = 2
 MaxActive = 2
 Faults = {"reset"}
 Bug = "none"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT WholeOrAbsent
INVARIANT RightResults
INVARIANT HealthyCallsSucceed
INVARIANT Out
