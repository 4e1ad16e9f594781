SPECIFICATION Spec
CONSTANTS
  FS <- DFS
  W = 2
  Chunk = 1
  MaxOps = 3
  MaxFaults = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
