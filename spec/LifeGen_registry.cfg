INIT Init
NEXT Next
CONSTANTS Mode = "registry" MaxLen = 16
CHECK_DEADLOCK FALSE
