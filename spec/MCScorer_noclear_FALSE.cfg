CONSTANTS RemOwn = FALSE Bug = "noclear" Deep = FALSE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
