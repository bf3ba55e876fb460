INIT Init
NEXT Next
INVARIANTS Laws Plane Tri
CONSTANTS Mode = "ang"
Depth = 2
CHECK_DEADLOCK FALSE
