INIT Init
NEXT Next
CONSTANTS MaxN = 3 MaxC = 3
INVARIANT Covered
INVARIANT Solid
CHECK_DEADLOCK FALSE
