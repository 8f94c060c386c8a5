CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "shared"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Reproducible
