INIT Init
NEXT Next
CONSTANTS Depth = 4 MaxN = 3
VIEW View
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
