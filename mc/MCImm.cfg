CONSTANT DB = 8
INIT Init
NEXT Next
INVARIANT RangeOk
CHECK_DEADLOCK FALSE
