SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
