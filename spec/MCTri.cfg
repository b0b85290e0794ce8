INIT Init
NEXT Next
CONSTANTS
 Coords = {0, 4, 12}
 MaxRows = 1
 Steps = 2
INVARIANTS
 Kept
 OnePerPoint
 SamePointSameValue
 ZeroIfUnmatched
 FromARow
 CombinedIgnored
 WiderMatchesMore
CHECK_DEADLOCK FALSE
