CONSTANTS
  DB = 8
  B = 8
  Law = "thin"
INIT Init
NEXT Next
INVARIANT Arith
CHECK_DEADLOCK FALSE
