SPECIFICATION AttrSpec
INVARIANTS
  RoundTrip
  WellFormed
  Apart
  Case
CONSTANTS
  Chars = {0, 10, 65}
  MaxStr = 2
  MaxList = 2
  Types <- DTs
  MaxArr = 2
  MaxRaw = 2
CHECK_DEADLOCK FALSE
