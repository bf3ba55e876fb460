INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "ang"
Depth = 4
CHECK_DEADLOCK FALSE
