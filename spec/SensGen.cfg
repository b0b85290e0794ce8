INIT Init
NEXT Next
CONSTANTS
 MaxLen = 3
 Csv = FALSE
CHECK_DEADLOCK FALSE
