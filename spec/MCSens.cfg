INIT Init
NEXT Next
CONSTANTS
 Vals = {3, 7}
 Perts = {125, 50}
 Steps = 1
INVARIANTS
 Latest
 Linear
 Held
 Unused
 NonZero
 MassVol
CHECK_DEADLOCK FALSE
