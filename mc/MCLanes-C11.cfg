CONSTANTS
  DB = 2
  Prop = "C11"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
