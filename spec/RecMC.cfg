SPECIFICATION MCSpec
CONSTANTS
  RTs <- DRTs
  Sizes <- DSizes
  MaxOps = 4
INVARIANT TableInv
PROPERTY Untouched
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
