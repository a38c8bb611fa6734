INIT Init0
NEXT Next0
CHECK_DEADLOCK FALSE
