INIT Init
NEXT Next
CONSTANTS N = 4 MaxW = 4 MaxReq = 3 MaxMove = 2
INVARIANT Complete
INVARIANT Abstract
CHECK_DEADLOCK FALSE
