INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "sky"
Depth = 3
CHECK_DEADLOCK FALSE
