INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
