CONSTANTS N0 = 4 Depth = 2 Bug = "growone" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS StoredIsMeant
