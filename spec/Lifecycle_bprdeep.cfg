CONSTANTS Kind = "bpr" Depth = 5 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer NoStaleCache
