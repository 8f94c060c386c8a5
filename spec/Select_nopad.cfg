CONSTANTS MaxN = 4
 MaxScore = 2
 Bug = "nopad"
SPECIFICATION Spec
INVARIANTS Exact HeapBounded
