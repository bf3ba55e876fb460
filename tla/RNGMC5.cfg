INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY Frame
CONSTANTS Depth = 5
MaxH = 3
Gen = FALSE
CHECK_DEADLOCK FALSE
