CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "reseed"
 Emit = FALSE
SPECIFICATION Spec
PROPERTY GlobalUntouched
