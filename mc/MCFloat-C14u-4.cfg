CONSTANTS
  DB = 8
  B = 4
  Law = "unary"
INIT Init
NEXT Next
INVARIANT Unary
CHECK_DEADLOCK FALSE
