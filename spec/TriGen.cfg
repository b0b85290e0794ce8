INIT Init
NEXT Next
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
