INIT Init
NEXT Next
CONSTANTS MaxN = 8 MaxW = 6
CHECK_DEADLOCK FALSE
