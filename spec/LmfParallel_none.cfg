CONSTANTS Threads = {1, 2}
 NU = 3
 NI = 2
 Bug = "none"
INIT Init
NEXT Next
INVARIANT RightSteps
