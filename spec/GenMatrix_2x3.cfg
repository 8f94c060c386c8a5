CONSTANTS NU = 2
 NI = 3
 Values = {0,1,2}
INIT Init
NEXT Next
INVARIANT Emit
