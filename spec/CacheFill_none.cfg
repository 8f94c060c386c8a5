CONSTANTS Threads = {a, b, d} Bug = "none"
INIT Init
NEXT Next
INVARIANTS OnlyFinished
