CONSTANTS
  DB = 2
  Thread = {1, 2}
  Ops = {"vqsub_s16", "vld1_u8", "vst1_s16", "vext_s16", "vrev64_s8"}
  Ks = {3, 4}
  MaxCalls = 2
SPECIFICATION Spec
INVARIANTS TypeOk Decided
PROPERTIES Functional Isolated OneAtATime Framed RejectedNothing
CHECK_DEADLOCK FALSE
