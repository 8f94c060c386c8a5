CONSTANTS Kind = "als" Depth = 4 Bug = "pfi_gram" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
