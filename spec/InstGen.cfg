INIT Init
NEXT Next
CONSTANTS MaxLen = 14
CHECK_DEADLOCK FALSE
