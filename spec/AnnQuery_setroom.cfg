CONSTANTS NI = 3
 Scores = {0, 1}
 MaxN = 2
 MaxFilt = 2
 Bug = "setroom"
INIT Init
NEXT Next
INVARIANT Right
