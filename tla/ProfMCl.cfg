INIT Init
NEXT Next
INVARIANTS TrLaws CoLaws LeafLaws
PROPERTY TrStep
CONSTANTS Mode = "leaf"
Depth = 0
Big = FALSE
CHECK_DEADLOCK FALSE
