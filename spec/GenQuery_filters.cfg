CONSTANTS MaxN = 3
 MaxScore = 1
 WithFilters = TRUE
INIT Init
NEXT Next
