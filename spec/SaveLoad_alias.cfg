CONSTANTS Ways = {"save"}
 Trains = {"fit"}
 Depth = 4
 Bug = "alias"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
