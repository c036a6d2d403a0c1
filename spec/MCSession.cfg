CONSTANTS MaxCap = 9 MaxOff = 2 MaxItems = 3
SPECIFICATION Spec
INVARIANTS FaithfulInv PositionsInv UntouchedInv Drained
CHECK_DEADLOCK FALSE
