CONSTANTS Kind = "als" Depth = 3 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer NoStaleCache
