CONSTANTS NU = 3
 NI = 4
 Values = {0,1}
INIT Init
NEXT Next
INVARIANT Emit
