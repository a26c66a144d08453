SPECIFICATION Spec
INVARIANT RightResult
PROPERTY Progress
PROPERTY Ends
CHECK_DEADLOCK FALSE
