CONSTANTS MaxItems = 3 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Identity
