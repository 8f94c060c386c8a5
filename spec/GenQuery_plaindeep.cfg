CONSTANTS MaxN = 5
 MaxScore = 2
 WithFilters = FALSE
INIT Init
NEXT Next
