CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT Reproducible
INVARIANT SeedsMatter
INVARIANT Out
PROPERTY GlobalUntouched
