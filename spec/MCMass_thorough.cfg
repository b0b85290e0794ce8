SPECIFICATION Spec
INVARIANTS Laws Kept
CONSTANTS
 Span = 3
 Dens = {1, 3}
 MaxStep = 4
CHECK_DEADLOCK FALSE
