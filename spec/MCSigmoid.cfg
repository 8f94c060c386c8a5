INIT Init
NEXT Next
INVARIANT Laws
