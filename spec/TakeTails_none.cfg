CONSTANTS MaxUser = 2
 MaxLen = 6
 K = 1
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Exact
