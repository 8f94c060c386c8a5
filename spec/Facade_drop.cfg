CONSTANTS MaxNamed = 2 Bug = "drop" Emit = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
