CONSTANTS Users = {u1, u2, u3} Items = {i1, i2} Iters = 3 Threads = {t1, t2, t3} Bug = "none"
INIT Init
NEXT Next
INVARIANTS Alternates
