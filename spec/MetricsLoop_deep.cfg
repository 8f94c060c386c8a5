CONSTANTS NU = 3
 NI = 3
 K = 1
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Definitions
