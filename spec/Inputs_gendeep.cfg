CONSTANTS Depth = 3
 Bug = "none"
 Emit = TRUE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
INVARIANT Out
