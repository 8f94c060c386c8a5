CONSTANTS MaxNamed = 2 Bug = "swap" Emit = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
