INIT OneInit
NEXT OneNext
CHECK_DEADLOCK FALSE
