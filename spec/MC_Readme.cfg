SPECIFICATION Spec
INVARIANT Emit
PROPERTY SourceIsTheUsers
PROPERTY OtherUntouched
PROPERTY UpdateMakesUpToDate
PROPERTY AssertionIsRight
PROPERTY EditMakesStale
CHECK_DEADLOCK FALSE
