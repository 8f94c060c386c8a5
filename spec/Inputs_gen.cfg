CONSTANTS Depth = 2
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
INVARIANT Out
