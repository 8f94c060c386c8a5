CONSTANTS MaxN = 4
 MaxScore = 2
 WithFilters = FALSE
INIT Init
NEXT Next
