SPECIFICATION MCSpec
CONSTANTS
  Cols <- DCols
  Stripings <- DStripings
  Kinds <- AllKinds
  MaxOps = 3
  Pars = {0, 1, 3}
INVARIANTS
  Content
  Filled
  Even2
  Tells
  Says
  Prints
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
