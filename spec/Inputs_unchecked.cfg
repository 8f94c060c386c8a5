CONSTANTS Depth = 3
 Bug = "unchecked"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
