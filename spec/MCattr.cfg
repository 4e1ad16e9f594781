SPECIFICATION MCSpec
CONSTANTS
  Cols <- ACols
  Stripings <- One
  Growths <- None
  DTs <- DDTs
  NMemb = 1
  Names = {1, 2}
  AttrVals <- AVals
  Kinds = {"create","open","close","flush","drop","setattr","rmattr","lookup","lsattr"}
  MaxH = 2
  MaxWrites = 0
  MaxOps = 6
INVARIANT MCInv
PROPERTIES Isolated ReadOnly
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
