CONSTANTS MaxN = 6
 MaxScore = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Exact HeapBounded
