CONSTANTS
  DB = 2
  Prop = "C10"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
