INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
