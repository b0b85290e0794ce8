INIT Init
NEXT Next
CONSTANTS
 MaxLen = 6
 Csv = TRUE
CHECK_DEADLOCK FALSE
