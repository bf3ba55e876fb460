INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "fits"
Depth = 3
CHECK_DEADLOCK FALSE
