CONSTANTS Ways = {"save"}
 Trains = {"fit"}
 Depth = 4
 Bug = "lostfactors"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
