CONSTANTS NU = 3
 NI = 3
 Values = {0,1}
INIT Init
NEXT Next
INVARIANT Emit
