CONSTANTS MaxNamed = 4 Bug = "none" Emit = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
