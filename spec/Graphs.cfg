INIT Init
NEXT Next
INVARIANT Emit
INVARIANT TopoAgrees
CHECK_DEADLOCK FALSE
