CONSTANTS Depth = 3
 Bug = "clobber"
 Emit = FALSE
SPECIFICATION Spec
INVARIANT InBounds
PROPERTY RejectedChangesNothing
PROPERTY QueryChangesNothing
