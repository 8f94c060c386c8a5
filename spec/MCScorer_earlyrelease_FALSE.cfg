CONSTANTS RemOwn = FALSE Bug = "earlyrelease" Deep = FALSE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
