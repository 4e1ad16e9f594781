SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Rows = 3
  Chunk = 2
  Shared = FALSE
INVARIANT Undisturbed
CHECK_DEADLOCK FALSE
