INIT Init
NEXT Next
CONSTANT NReg = 4
CHECK_DEADLOCK FALSE
