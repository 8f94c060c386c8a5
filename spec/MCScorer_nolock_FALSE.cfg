CONSTANTS RemOwn = FALSE Bug = "nolock" Deep = FALSE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
