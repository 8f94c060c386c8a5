CONSTANTS Threads = {a, b, d} Bug = "publishfirst"
INIT Init
NEXT Next
INVARIANTS OnlyFinished
