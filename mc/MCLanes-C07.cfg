CONSTANTS
  DB = 2
  Prop = "C07"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
