INIT Init
NEXT Next
INVARIANTS TrLaws CoLaws LeafLaws
PROPERTY TrStep
CONSTANTS Mode = "co"
Depth = 2
Big = TRUE
CHECK_DEADLOCK FALSE
