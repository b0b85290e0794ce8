INIT Init
NEXT Next
CONSTANTS MaxN = 4 MaxC = 5
INVARIANT Covered
INVARIANT Solid
CHECK_DEADLOCK FALSE
