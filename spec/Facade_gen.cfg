CONSTANTS MaxNamed = 1 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Out
CHECK_DEADLOCK FALSE
