CONSTANTS MaxUser = 2
 MaxLen = 6
 K = 1
 Bug = "shuffleall"
INIT Init
NEXT Next
INVARIANT Exact
