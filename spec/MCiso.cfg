SPECIFICATION MCSpec
CONSTANTS
  Cols <- ICols
  Stripings <- One
  Growths <- DGrowths
  DTs <- DDTs
  NMemb = 1
  Names = {1}
  AttrVals <- IVals
  Kinds = {"create","open","close","flush","drop","grow","write","read","setattr"}
  MaxH = 3
  MaxWrites = 1
  MaxOps = 6
INVARIANT MCInv
PROPERTIES Isolated ReadOnly
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
