INIT Init
NEXT Next
INVARIANT Emit Distinct
CHECK_DEADLOCK FALSE
