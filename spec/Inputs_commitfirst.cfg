CONSTANTS Depth = 3
 Bug = "commitfirst"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
