CONSTANTS NU = 2
 NI = 3
 Threads = {1, 2}
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Frame
