INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Nodes Even Compact Constant Line Pair Once Through Hermitian AtModes Padded
CONSTANTS
  Orders = {1, 3}
  Steps = 7
  Sizes = {4}
