INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "wcs"
Depth = 2
CHECK_DEADLOCK FALSE
