CONSTANTS
  DB = 8
  B = 4
  Law = "binary"
INIT Init
NEXT Next
INVARIANT Arith
CHECK_DEADLOCK FALSE
