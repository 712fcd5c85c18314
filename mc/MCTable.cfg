CONSTANT DB = 8
INIT Init
NEXT Next
INVARIANT Indexed
CHECK_DEADLOCK FALSE
