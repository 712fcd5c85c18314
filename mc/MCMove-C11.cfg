CONSTANTS
  DB = 8
  Prop = "C11"
  Thread = {0}
INIT MInit
NEXT MNext
INVARIANTS LoadStore LaneAccess Frame Permutation Reinterpretation
CHECK_DEADLOCK FALSE
