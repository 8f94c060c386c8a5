CONSTANTS Ways = {"save", "pickle"}
 Trains = {"fit", "pf"}
 Depth = 4
 Bug = "none"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
