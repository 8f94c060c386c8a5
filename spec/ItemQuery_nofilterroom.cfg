CONSTANTS NI = 3
 Scores = {0, 1, 2}
 MaxN = 3
 Bug = "nofilterroom"
INIT Init
NEXT Next
INVARIANT Right
