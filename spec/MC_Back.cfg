INIT Init
NEXT Next
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
