CONSTANTS MaxCap = 14 MaxOff = 3 MaxItems = 4
SPECIFICATION Spec
INVARIANTS FaithfulInv PositionsInv UntouchedInv Drained
CHECK_DEADLOCK FALSE
