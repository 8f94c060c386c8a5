CONSTANTS MaxN = 4
 MaxScore = 2
 Bug = "ge"
SPECIFICATION Spec
INVARIANTS Exact HeapBounded
