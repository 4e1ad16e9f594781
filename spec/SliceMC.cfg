SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  MaxN = 4
  Bound = 6
CHECK_DEADLOCK FALSE
