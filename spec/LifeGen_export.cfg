INIT Init
NEXT Next
CONSTANTS Mode = "export" MaxLen = 16
CHECK_DEADLOCK FALSE
