CONSTANTS
  DB = 8
  B = 8
  Law = "unary"
INIT Init
NEXT Next
INVARIANT Unary
CHECK_DEADLOCK FALSE
