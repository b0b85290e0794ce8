INIT Init
NEXT Next
CONSTANTS MaxGen = 2 MaxInst = 3 MaxSteps = 8
INVARIANT Alone
CHECK_DEADLOCK FALSE
