CONSTANTS MaxN = 4
 MaxScore = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Exact HeapBounded
