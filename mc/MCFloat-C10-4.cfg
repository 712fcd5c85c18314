CONSTANTS
  DB = 8
  B = 4
  Law = "binary"
INIT Init
NEXT Next
INVARIANT Order
CHECK_DEADLOCK FALSE
