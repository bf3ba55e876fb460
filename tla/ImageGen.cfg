INIT Init
NEXT NextGen
CONSTANTS Depth = 25
MaxObj = 5
Gen = TRUE
Rich = TRUE
CHECK_DEADLOCK FALSE
