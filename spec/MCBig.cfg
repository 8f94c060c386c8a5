INIT Init
NEXT Next
CONSTANTS
  Digits = {0, 1, 99}
INVARIANT Agrees
CHECK_DEADLOCK FALSE
