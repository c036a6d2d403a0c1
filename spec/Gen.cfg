SPECIFICATION Spec
INVARIANT Sound
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
