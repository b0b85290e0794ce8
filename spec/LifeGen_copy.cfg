INIT Init
NEXT Next
CONSTANTS Mode = "copy" MaxLen = 16
CHECK_DEADLOCK FALSE
