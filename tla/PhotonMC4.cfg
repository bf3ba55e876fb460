INIT Init
NEXT Next
INVARIANTS DepositLaw AddedLaw MaskLaw CopyLaw ConvLaw SwapLaw PutLaw ShiftLaw MakeLaw Shape
CONSTANTS Depth = 3
Big = TRUE
CHECK_DEADLOCK FALSE
