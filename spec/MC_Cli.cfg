SPECIFICATION Spec
INVARIANT Emit
PROPERTY OnlyTheDestination
PROPERTY OnlyOneNewFile
PROPERTY RefusedChangesNothing
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
