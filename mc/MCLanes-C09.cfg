CONSTANTS
  DB = 2
  Prop = "C09"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
