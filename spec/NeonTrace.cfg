CONSTANTS
  DB = 8
  Thread = {0, 1, 2, 3, 4, 5, 6, 7}
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
