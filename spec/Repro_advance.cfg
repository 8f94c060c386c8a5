CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "advance"
 Emit = FALSE
SPECIFICATION Spec
PROPERTY GlobalUntouched
