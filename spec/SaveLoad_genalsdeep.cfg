CONSTANTS Ways = {"any"}
 Trains = {"fit", "pf"}
 Depth = 5
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
