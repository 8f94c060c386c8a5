CONSTANTS NI = 4
 Scores = {0, 1}
 MaxN = 4
 Bug = "none"
INIT Init
NEXT Next
INVARIANT Right
