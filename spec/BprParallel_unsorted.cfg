CONSTANTS NU = 2
 NI = 3
 Threads = {1, 2}
 Bug = "unsorted"
INIT Init
NEXT Next
INVARIANT Frame
