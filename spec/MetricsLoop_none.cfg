CONSTANTS NU = 2
 NI = 3
 K = 2
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Definitions
