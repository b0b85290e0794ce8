INIT Init
NEXT Next
CONSTANTS Mode = "composite" MaxLen = 22
CHECK_DEADLOCK FALSE
