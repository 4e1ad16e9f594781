SPECIFICATION Spec
CONSTANTS
  MaxDamage = 1
  AtRandom = FALSE
INVARIANTS Undamaged CutShort Emit
CHECK_DEADLOCK FALSE
