INIT Init
NEXT Next
CONSTANTS Mode = "wings" MaxLen = 16
CHECK_DEADLOCK FALSE
