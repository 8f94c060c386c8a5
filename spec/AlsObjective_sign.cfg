CONSTANTS MaxItems = 2 F = 2 Bug = "sign"
INIT Init
NEXT Next
INVARIANTS Expansion Definite
