CONSTANTS
  DB = 2
  Thread = {1, 2}
  Scratch = "local"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
