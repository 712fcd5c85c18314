CONSTANTS
  DB = 8
  B = 4
  Law = "binary"
INIT Init
NEXT Next
INVARIANT Convert
CHECK_DEADLOCK FALSE
