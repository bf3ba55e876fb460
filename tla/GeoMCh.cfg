INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "shr"
Depth = 2
CHECK_DEADLOCK FALSE
