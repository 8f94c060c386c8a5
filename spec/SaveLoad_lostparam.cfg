CONSTANTS Ways = {"save"}
 Trains = {"fit"}
 Depth = 4
 Bug = "lostparam"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Equivalent
INVARIANT Out
PROPERTY Independent
