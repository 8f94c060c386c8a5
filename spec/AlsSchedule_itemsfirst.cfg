CONSTANTS Users = {u1, u2, u3} Items = {i1, i2} Iters = 2 Threads = {t1, t2} Bug = "itemsfirst"
INIT Init
NEXT Next
INVARIANTS Alternates
