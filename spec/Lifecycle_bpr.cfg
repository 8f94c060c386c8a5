CONSTANTS Kind = "bpr" Depth = 4 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer NoStaleCache
