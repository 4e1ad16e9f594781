SPECIFICATION MCSpec
CONSTANTS
  Cols <- DCols
  Kinds <- DAll
  MaxH = 2
  MaxOps = 5
INVARIANTS
  RowsInv
  SizeInv
  SumsInv
  LastGet
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
