INIT Init
NEXT Next
INVARIANT Properties
CHECK_DEADLOCK FALSE
