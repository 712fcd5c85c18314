CONSTANTS
  DB = 2
  Prop = "C04"
INIT Init
NEXT Next
INVARIANT Agreement
CHECK_DEADLOCK FALSE
