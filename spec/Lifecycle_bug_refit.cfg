CONSTANTS Kind = "als" Depth = 4 Bug = "refit" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
