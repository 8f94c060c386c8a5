CONSTANTS MaxNamed = 3 Bug = "none" Emit = TRUE
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Out
CHECK_DEADLOCK FALSE
