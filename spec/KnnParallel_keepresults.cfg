CONSTANTS Threads = {t1, t2}
 NI = 3
 NU = 2
 K = 2
 Values = {0, 1}
 Bug = "keepresults"
INIT Init
NEXT Next
INVARIANT TopK
