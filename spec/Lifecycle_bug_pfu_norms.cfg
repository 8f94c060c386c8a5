CONSTANTS Kind = "als" Depth = 4 Bug = "pfu_norms" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
