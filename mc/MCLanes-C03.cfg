CONSTANTS
  DB = 2
  Prop = "C03"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
