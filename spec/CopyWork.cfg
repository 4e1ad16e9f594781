SPECIFICATION Spec
CONSTANTS
  Ranks = 3
  Chunks = 3
  MaxFail = 2
INVARIANTS
  Once
  Whole
  Known
  Quiet
PROPERTY Terminates
