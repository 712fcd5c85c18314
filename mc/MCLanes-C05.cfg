CONSTANTS
  DB = 2
  Prop = "C05"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
