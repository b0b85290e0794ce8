INIT Init
NEXT Next
CONSTANTS
 NReg = 2
 Depth = 4
INVARIANTS
 RoundTrip
 FramesOrtho
 Algebra
PROPERTIES
 Frame
 HeldSame
 TermsSame
 Names
CHECK_DEADLOCK FALSE
