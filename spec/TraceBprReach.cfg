INIT Init
NEXT Next
INVARIANT Emit
