CONSTANTS MaxItems = 2 F = 2 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Expansion Definite
