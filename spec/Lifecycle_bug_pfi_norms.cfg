CONSTANTS Kind = "als" Depth = 4 Bug = "pfi_norms" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
