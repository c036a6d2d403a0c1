INIT Init
NEXT Next
CONSTRAINT Report
POSTCONDITION Done
CHECK_DEADLOCK FALSE
