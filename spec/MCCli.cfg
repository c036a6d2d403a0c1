CONSTANT MaxOps = 2
INIT Init
NEXT Next
INVARIANT OnlyComplete
INVARIANT FailingChangesNothing
INVARIANT Judged
CHECK_DEADLOCK FALSE
