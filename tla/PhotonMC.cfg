INIT Init
NEXT Next
INVARIANTS DepositLaw AddedLaw MaskLaw CopyLaw ConvLaw SwapLaw PutLaw ShiftLaw MakeLaw Shape
CONSTANTS Depth = 2
Big = FALSE
CHECK_DEADLOCK FALSE
