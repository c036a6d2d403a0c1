CONSTANTS NSlots = 2 NLists = 1 MaxOps = 5
SPECIFICATION Spec
INVARIANTS Released Bounds NeverForgotten Releasable
CHECK_DEADLOCK FALSE
