CONSTANTS MaxItems = 2 Bug = "negatives"
INIT Init
NEXT Next
INVARIANTS Identity
