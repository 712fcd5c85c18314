CONSTANTS
  DB = 2
  Thread = {1, 2}
  Ops = {"vqsub_s16", "vst1_s16", "vext_s16"}
  Ks = {1, 4}
  MaxCalls = 3
SPECIFICATION Spec
INVARIANTS TypeOk Decided
PROPERTIES Functional Isolated OneAtATime Framed RejectedNothing
CHECK_DEADLOCK FALSE
