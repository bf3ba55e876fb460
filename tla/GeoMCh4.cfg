INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "shr"
Depth = 4
CHECK_DEADLOCK FALSE
