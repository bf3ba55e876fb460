INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Nodes Even Compact Constant Line Pair Once Through Hermitian AtModes Padded
CONSTANTS
  Orders = {1, 2, 3, 5, 8}
  Steps = 12
  Sizes = {3, 5}
