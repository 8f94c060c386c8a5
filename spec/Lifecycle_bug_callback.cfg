CONSTANTS Kind = "als" Depth = 4 Bug = "callback" Emit = FALSE
INIT Init
NEXT Next
INVARIANTS NoStaleAnswer
