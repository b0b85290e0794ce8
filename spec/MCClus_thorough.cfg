INIT Init
NEXT Next
CONSTANTS
 Bases = {0, 2, 3, 4, 5, 6, 7}
 MaxM = 4
INVARIANTS
 Known
 Ends
 Increasing
 Identity
 Mirror
 Towards
 Limits
 Corners
CHECK_DEADLOCK FALSE
