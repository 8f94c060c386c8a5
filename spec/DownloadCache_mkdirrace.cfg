CONSTANTS Calls = {1, 2}
 Chunks = 2
 MaxActive = 2
 Faults = {"reset"}
 Bug = "mkdirrace"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT HealthyCallsSucceed
