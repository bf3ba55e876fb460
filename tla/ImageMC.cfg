INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY Frame
CONSTANTS Depth = 3
MaxObj = 3
Gen = FALSE
Rich = FALSE
CHECK_DEADLOCK FALSE
