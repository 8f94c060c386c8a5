CONSTANTS Calls = {1, 2}
 Chunks = 2
 MaxActive = 2
 Faults = {"reset"}
 Bug = "sharedtmp"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT RightResults
