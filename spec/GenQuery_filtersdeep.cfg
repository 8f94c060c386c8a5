CONSTANTS MaxN = 4
 MaxScore = 1
 WithFilters = TRUE
INIT Init
NEXT Next
