INIT Init
NEXT Next
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
INVARIANTS ReverseLaw SubRangeLaw MeanLaw OffsetLaw PolyLaw CoonsLaw SweptLaw RotLaw IsoLaw FlatLaw PerimeterLaw
