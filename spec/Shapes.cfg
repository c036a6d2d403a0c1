INIT Init
NEXT Next
INVARIANT Emit
INVARIANT AllAccepted
CHECK_DEADLOCK FALSE
