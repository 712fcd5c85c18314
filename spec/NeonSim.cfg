CONSTANTS
  DB = 8
  Thread = {0}
INIT SInit
NEXT SNext
CHECK_DEADLOCK FALSE
