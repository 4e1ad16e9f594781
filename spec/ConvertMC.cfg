SPECIFICATION Spec
CONSTANT Limit = 1000000
INVARIANT Inv
CHECK_DEADLOCK FALSE
