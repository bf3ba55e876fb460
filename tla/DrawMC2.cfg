INIT Init
NEXT Next
INVARIANTS PixelLaw SizeLaw FourierLaw ShiftLaw KLaw
CONSTANTS Depth = 2
Big = TRUE
CHECK_DEADLOCK FALSE
