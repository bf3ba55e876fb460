INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "fits"
Depth = 1
CHECK_DEADLOCK FALSE
