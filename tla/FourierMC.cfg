INIT Init
NEXT Next
CONSTANTS MaxW = 3 Org = 1 Depth = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
