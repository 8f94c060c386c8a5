CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "global"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Reproducible
