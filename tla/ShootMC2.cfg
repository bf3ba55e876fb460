SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
