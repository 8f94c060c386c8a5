CONSTANTS MaxItems = 3 F = 2 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Expansion Definite
