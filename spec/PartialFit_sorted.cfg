CONSTANTS N0 = 4 Depth = 2 Bug = "sorted" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS StoredIsMeant
