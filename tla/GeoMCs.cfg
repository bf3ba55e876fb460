INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "sky"
Depth = 1
CHECK_DEADLOCK FALSE
