CONSTANTS RemOwn = FALSE Bug = "none" Deep = FALSE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
