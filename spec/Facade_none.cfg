CONSTANTS MaxNamed = 2 Bug = "none" Emit = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
