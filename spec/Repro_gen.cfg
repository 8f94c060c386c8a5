CONSTANTS Seeds = {1, 2}
 Depth = 3
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT Reproducible
INVARIANT SeedsMatter
INVARIANT Out
PROPERTY GlobalUntouched
