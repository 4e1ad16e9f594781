SPECIFICATION MCSpec
CONSTANTS
  NR = 2
  Cols <- OneCol
  Kinds <- DAll
  MaxH = 2
  MaxOps = 6
INVARIANTS
  RowsInv
  SumsInv
  AttrInv
  AgreeInv
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
