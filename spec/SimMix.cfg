INIT MixInit
NEXT MixNext
CHECK_DEADLOCK FALSE
