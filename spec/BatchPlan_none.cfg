CONSTANTS MaxRows = 6
 BlockSize = 2
 Threads = {1, 2, 3}
 Bug = "none"
SPECIFICATION Spec
INVARIANTS RowsOwnAnswer WrittenOnce
