INIT Init
NEXT NextGen
CONSTANTS Depth = 30
MaxH = 5
Gen = TRUE
CHECK_DEADLOCK FALSE
