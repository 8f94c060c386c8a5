CONSTANTS Calls = {1, 2}
 Chunks = 2
 MaxActive = 1
 Faults = {"reset"}
 Bug = "nolength"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT RightResults
