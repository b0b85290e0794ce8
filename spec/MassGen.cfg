INIT Init
NEXT Next
CONSTANTS MaxLen = 12
CHECK_DEADLOCK FALSE
