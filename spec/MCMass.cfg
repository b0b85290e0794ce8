SPECIFICATION Spec
INVARIANTS Laws Kept
CONSTANTS
 Span = 2
 Dens = {1, 3}
 MaxStep = 3
CHECK_DEADLOCK FALSE
