INIT Init
NEXT Next
INVARIANT Cleaning
CHECK_DEADLOCK FALSE
