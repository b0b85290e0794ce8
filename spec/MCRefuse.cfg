INIT Init
NEXT Next
CONSTANTS
 Pts = {0, 1, 2}
 Res = {1, 2}
INVARIANTS
 Sound
 Complete
CHECK_DEADLOCK FALSE
