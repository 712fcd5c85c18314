CONSTANT DB = 8
INIT Init
NEXT Next
INVARIANTS NameOk MeaningUnique TypesOk TypesTold Checked
CHECK_DEADLOCK FALSE
