CONSTANTS Depth = 3
 Bug = "none"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
