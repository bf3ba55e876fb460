INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS Lo = 0
Hi = 2
CHECK_DEADLOCK FALSE
