CONSTANTS Seeds = {1, 2}
 Depth = 4
 Bug = "ignoreseed"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT SeedsMatter
