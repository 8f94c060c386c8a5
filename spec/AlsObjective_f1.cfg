CONSTANTS MaxItems = 3 F = 1 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Expansion Definite
