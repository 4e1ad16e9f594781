SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxVol = 12
  Extents = {0, 1, 2, 3}
INVARIANTS Inv EmitInit
CHECK_DEADLOCK FALSE
