CONSTANTS Ways = {"any"}
 Trains = {"fit"}
 Depth = 3
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
