INIT Init
NEXT Next
INVARIANTS TrLaws CoLaws LeafLaws
PROPERTY TrStep
CONSTANTS Mode = "tr"
Depth = 2
Big = FALSE
CHECK_DEADLOCK FALSE
