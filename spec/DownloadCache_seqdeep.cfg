CONSTANTS Calls = {1, 2, 3, 4}
 Chunks = 2
 MaxActive = 1
 Faults = {"reset", "int", "nospace"}
 Bug = "none"
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT WholeOrAbsent
INVARIANT RightResults
INVARIANT HealthyCallsSucceed
INVARIANT Out
