INIT Init
NEXT Next
CONSTANTS Mode = "mesh" MaxLen = 16
CHECK_DEADLOCK FALSE
