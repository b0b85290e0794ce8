INIT Init
NEXT Next
CONSTANTS N = 4 MaxW = 3 MaxReq = 3 MaxMove = 1
INVARIANT Complete
INVARIANT Abstract
CHECK_DEADLOCK FALSE
