CONSTANTS
  DB = 2
  Prop = "C06"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
