CONSTANTS Ways = {"save", "pickle"}
 Trains = {"fit", "pf"}
 Depth = 6
 Bug = "none"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
