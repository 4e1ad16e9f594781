SPECIFICATION MCSpec
CONSTANTS
  Cols <- NCols
  Stripings <- One
  Growths <- None
  DTs <- DDTs
  NMemb = 1
  Names = {1}
  AttrVals = {}
  Kinds = {"create","open","drop","list"}
  MaxH = 1
  MaxWrites = 0
  MaxOps = 8
INVARIANT MCInv
PROPERTIES Isolated ReadOnly
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
