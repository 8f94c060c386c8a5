CONSTANTS RemOwn = TRUE Bug = "none" Deep = TRUE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
