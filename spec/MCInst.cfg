INIT Init
NEXT Next
CONSTANTS MaxGen = 2 MaxInst = 2 MaxSteps = 6
INVARIANT Alone
CHECK_DEADLOCK FALSE
