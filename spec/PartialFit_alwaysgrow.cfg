CONSTANTS N0 = 4 Depth = 2 Bug = "alwaysgrow" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS StoredIsMeant
