CONSTANTS MaxNamed = 2 Bug = "byposition" Emit = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
