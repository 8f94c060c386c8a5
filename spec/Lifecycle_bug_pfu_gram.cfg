CONSTANTS Kind = "als" Depth = 4 Bug = "pfu_gram" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
