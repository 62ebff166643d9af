INIT Init
NEXT NoNext
CHECK_DEADLOCK FALSE
