CONSTANTS Threads = {1, 2}
 NU = 3
 NI = 2
 Bug = "sharedbuf"
INIT Init
NEXT Next
INVARIANT RightSteps
