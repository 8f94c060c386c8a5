CONSTANTS N0 = 4 Depth = 2 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS StoredIsMeant
