INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS Lo = 0
Hi = 3
CHECK_DEADLOCK FALSE
