SPECIFICATION MCSpec
CONSTANTS
  Cols <- DCols
  Stripings <- DStripings
  Growths <- DGrowths
  DTs <- DDTs
  NMemb = 1
  Names = {1}
  AttrVals = {}
  Kinds = {"create","open","close","flush","grow","seek","write","read"}
  MaxH = 2
  MaxWrites = 2
  MaxOps = 6
INVARIANT MCInv
PROPERTIES Isolated ReadOnly
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
