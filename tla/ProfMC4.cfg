INIT Init
NEXT Next
INVARIANTS TrLaws CoLaws LeafLaws
PROPERTY TrStep
CONSTANTS Mode = "tr"
Depth = 3
Big = TRUE
CHECK_DEADLOCK FALSE
