CONSTANTS
  DB = 2
  NMax = 3
INIT Init
NEXT Next
INVARIANTS Arithmetic Extension Saturation ShiftsAndBits
CHECK_DEADLOCK FALSE
