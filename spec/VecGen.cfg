INIT Init
NEXT Next
CONSTANTS
 MaxLen = 30
 NReg = 4
CHECK_DEADLOCK FALSE
