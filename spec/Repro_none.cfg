CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "none"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Reproducible
INVARIANT SeedsMatter
INVARIANT Out
PROPERTY GlobalUntouched
