INIT Init
NEXT Next
INVARIANT Emit
INVARIANT BaseAccepted
CHECK_DEADLOCK FALSE
