CONSTANTS
  DB = 2
  Thread = {1, 2}
  Scratch = "static"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
