SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxSize = 2
  Concs = {0, 1, 2, 4}
  Thrs = {0, 1, 3, 99}
  Bads = {{}, {0}, {1}, {2}}
  IOBads = {{}, {1}}
INVARIANTS LimitKept Matched Right Once Complete Agreed Outcome Untouched Bounded
PROPERTY Ends
CONSTRAINT Emit
