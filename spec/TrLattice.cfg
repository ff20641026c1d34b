INIT Init
NEXT Next
POSTCONDITION Save
CHECK_DEADLOCK FALSE
