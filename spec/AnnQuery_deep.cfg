CONSTANTS NI = 4
 Scores = {0, 1, 2}
 MaxN = 3
 MaxFilt = 2
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Right
