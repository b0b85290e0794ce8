INIT Init
NEXT Next
CONSTANTS Mode = "options" MaxLen = 10
CHECK_DEADLOCK FALSE
