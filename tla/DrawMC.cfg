INIT Init
NEXT Next
INVARIANTS PixelLaw SizeLaw FourierLaw ShiftLaw KLaw
CONSTANTS Depth = 1
Big = FALSE
CHECK_DEADLOCK FALSE
