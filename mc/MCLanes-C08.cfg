CONSTANTS
  DB = 2
  Prop = "C08"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
