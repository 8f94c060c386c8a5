CONSTANTS RemOwn = TRUE Bug = "minusone" Deep = FALSE
INIT Init
NEXT Next
INVARIANTS OwnAnswer CleanWhenIdle
