CONSTANTS NSlots = 2 NLists = 1 MaxOps = 14
SPECIFICATION Spec
INVARIANTS Released Bounds NeverForgotten Releasable
CHECK_DEADLOCK FALSE
