INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "wcs"
Depth = 4
CHECK_DEADLOCK FALSE
