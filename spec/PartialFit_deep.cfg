CONSTANTS N0 = 4 Depth = 4 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS StoredIsMeant
