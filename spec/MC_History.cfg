SPECIFICATION Spec
INVARIANT Independent
INVARIANT Emit
PROPERTY NoInterference
CHECK_DEADLOCK FALSE
