CONSTANTS MaxItems = 2 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Identity
